"""Tables 2-21 and the default paths of Setyawan and Curtarolo (2010), written down independently of the package.

Every parameter is expressed through the metric of the conventional cell: A = a^2, B = b^2, C = c^2, bc = b.c (scalar product)."""

PATHS = {
    "CUB": "Γ X M Γ R X|M R", "FCC": "Γ X W K Γ L U W L K|U X", "BCC": "Γ H N Γ P H|P N", "TET": "Γ X M Γ Z R A Z|X R|M A",
    "BCT1": "Γ X M Γ Z P N Z1 M|X P", "BCT2": "Γ X Y Σ Γ Z Σ1 N P Y1 Z|X P", "ORC": "Γ X S Y Γ Z U R T Z|Y T|U X|S R",
    "ORCF1": "Γ Y T Z Γ X A1 Y|T X1|X A Z|L Γ", "ORCF2": "Γ Y C D X Γ Z D1 H C|C1 Z|X H1|H Y|L Γ", "ORCF3": "Γ Y T Z Γ X A1 Y|X A Z|L Γ",
    "ORCI": "Γ X L T W R X1 Z Γ Y S W|L1 Y|Y1 Z", "ORCC": "Γ X S R A Z Γ Y X1 A1 T Y|Z T", "HEX": "Γ M K Γ A L H A|L M|K H",
    "RHL1": "Γ L B1|B Z Γ X|Q F P1 Z|L P", "RHL2": "Γ P Z Q Γ F P1 Q1 L Z", "MCL": "Γ Y H C E M1 A X H1|M D Z|Y D",
    "MCLC1": "Γ Y F L I|I1 Z F1|Y X1|X Γ N|M Γ", "MCLC2": "Γ Y F L I|I1 Z F1|N Γ M", "MCLC3": "Γ Y F H Z I F1|H1 Y1 X Γ N|M Γ",
    "MCLC4": "Γ Y F H Z I|H1 Y1 X Γ N|M Γ", "MCLC5": "Γ Y F L I|I1 Z H F1|H1 Y1 X Γ N|M Γ",
    "TRI1a": "X Γ Y|L Γ Z|N Γ M|R Γ", "TRI1b": "X Γ Y|L Γ Z|N Γ M|R Γ", "TRI2a": "X Γ Y|L Γ Z|N Γ M|R Γ", "TRI2b": "X Γ Y|L Γ Z|N Γ M|R Γ",
}


def path(variation):
    return PATHS[variation].replace("Γ", "GAMMA").replace("Σ", "SIGMA").replace(" ", "-")


def points(h, v, M):
    """published coordinates; M is the metric of the conventional cell"""
    A, B, C, bc = M[0][0], M[1][1], M[2][2], M[1][2]
    d = h.div
    H, Q, O, I = h.q("1/2"), h.q("1/4"), h.q(0), h.q(1)
    T = h.q("3/4")
    r = {"GAMMA": (O, O, O)}

    def put(**k):
        r.update(k)

    if v == "CUB":
        put(X=(O, H, O), M=(H, H, O), R=(H, H, H))
    elif v == "FCC":
        put(X=(H, O, H), L=(H, H, H), W=(H, Q, T), K=(h.q("3/8"), h.q("3/8"), T), U=(h.q("5/8"), Q, h.q("5/8")))
    elif v == "BCC":
        put(H=(H, -H, H), N=(O, O, H), P=(Q, Q, Q))
    elif v == "TET":
        put(A=(H, H, H), M=(H, H, O), R=(O, H, H), X=(O, H, O), Z=(O, O, H))
    elif v == "BCT1":
        e = (1 + d(C, A)) / 4
        put(M=(-H, H, H), N=(O, H, O), P=(Q, Q, Q), X=(O, O, H), Z=(e, e, -e), Z1=(-e, 1 - e, e))
    elif v == "BCT2":
        e, z = (1 + d(A, C)) / 4, d(A, 2 * C)
        put(N=(O, H, O), P=(Q, Q, Q), SIGMA=(-e, e, e), SIGMA1=(e, 1 - e, -e), X=(O, O, H), Y=(-z, z, H), Y1=(H, H, -z), Z=(H, H, -H))
    elif v == "ORC":
        put(X=(H, O, O), Y=(O, H, O), Z=(O, O, H), S=(H, H, O), U=(H, O, H), T=(O, H, H), R=(H, H, H))
    elif v in ("ORCF1", "ORCF3"):
        z = (1 + d(A, B) - d(A, C)) / 4
        e = (1 + d(A, B) + d(A, C)) / 4
        put(A=(H, H + z, z), A1=(H, H - z, 1 - z), L=(H, H, H), T=(I, H, H), X=(O, e, e), X1=(I, 1 - e, 1 - e), Y=(H, O, H), Z=(H, H, O))
    elif v == "ORCF2":
        f = (1 + d(C, B) - d(C, A)) / 4
        e = (1 + d(A, B) - d(A, C)) / 4
        de = (1 + d(B, A) - d(B, C)) / 4
        put(C=(H, H - e, 1 - e), C1=(H, H + e, e), D=(H - de, H, 1 - de), D1=(H + de, H, de), L=(H, H, H),
            H=(1 - f, H - f, H), H1=(f, H + f, H), X=(O, H, H), Y=(H, O, H), Z=(H, H, O))
    elif v == "ORCI":
        z, e, de, mu = (1 + d(A, C)) / 4, (1 + d(B, C)) / 4, d(B - A, 4 * C), d(A + B, 4 * C)
        put(L=(-mu, mu, H - de), L1=(mu, -mu, H + de), L2=(H - de, H + de, -mu), R=(O, H, O), S=(H, O, O), T=(O, O, H), W=(Q, Q, Q),
            X=(-z, z, z), X1=(z, 1 - z, -z), Y=(e, -e, e), Y1=(1 - e, e, -e), Z=(H, H, -H))
    elif v == "ORCC":
        z = (1 + d(A, B)) / 4
        put(A=(z, z, H), A1=(-z, 1 - z, H), R=(O, H, H), S=(O, H, O), T=(-H, H, H), X=(z, z, O), X1=(-z, 1 - z, O), Y=(-H, H, O), Z=(O, O, H))
    elif v == "HEX":
        t = h.q("1/3")
        put(A=(O, O, H), H=(t, t, H), K=(t, t, O), L=(H, O, H), M=(H, O, O))
    elif v == "RHL1":
        ca = d(bc, B)
        e = d(1 + 4 * ca, 2 + 4 * ca)
        n = T - e / 2
        put(B=(e, H, 1 - e), B1=(H, 1 - e, e - 1), F=(H, H, O), L=(H, O, O), L1=(O, O, -H), P=(e, n, n), P1=(1 - n, 1 - n, 1 - e),
            P2=(n, n, e - 1), Q=(1 - n, n, O), X=(n, O, -n), Z=(H, H, H))
    elif v == "RHL2":
        ca = d(bc, B)
        e = d(1 + ca, 2 * (1 - ca))  # 1 / (2 tan^2(alpha/2))
        n = T - e / 2
        put(F=(H, -H, O), L=(H, O, O), P=(1 - n, -n, 1 - n), P1=(n, n - 1, n - 1), Q=(e, e, e), Q1=(1 - e, -e, -e), Z=(H, -H, H))
    elif v == "MCL":
        s2 = 1 - d(bc * bc, B * C)  # sin^2(alpha)
        e = d(1 - d(bc, C), 2 * s2)  # b cos(alpha) / c = bc / C
        n = H - e * d(bc, B)  # c cos(alpha) / b = bc / B
        put(A=(H, H, O), C=(O, H, H), D=(H, O, H), D1=(H, O, -H), E=(H, H, H), H=(O, e, 1 - n), H1=(O, 1 - e, n), H2=(O, e, -n),
            M=(H, e, 1 - n), M1=(H, 1 - e, n), M2=(H, e, -n), X=(O, H, O), Y=(O, O, H), Y1=(O, O, -H), Z=(H, O, O))
    elif v in ("MCLC1", "MCLC2"):
        s2 = 1 - d(bc * bc, B * C)
        z = d(2 - d(bc, C), 4 * s2)
        e = H + 2 * z * d(bc, B)
        p = T - d(A, 4 * B * s2)
        f = p + (T - p) * d(bc, C)
        put(N=(H, O, O), N1=(O, -H, O), F=(1 - z, 1 - z, 1 - e), F1=(z, z, e), F2=(-z, -z, 1 - e), F3=(1 - z, -z, 1 - e),
            I=(f, 1 - f, H), I1=(1 - f, f - 1, H), L=(H, H, H), M=(H, O, H), X=(1 - p, p - 1, O), X1=(p, 1 - p, O), X2=(p - 1, -p, O),
            Y=(H, H, O), Y1=(-H, -H, O), Z=(O, O, H))
    elif v in ("MCLC3", "MCLC4"):
        s2 = 1 - d(bc * bc, B * C)
        mu = (1 + d(B, A)) / 4
        de = d(bc, 2 * A)
        z = mu - Q + d(1 - d(bc, C), 4 * s2)
        e = H + 2 * z * d(bc, B)
        f = 1 + z - 2 * mu
        p = e - 2 * de
        put(F=(1 - f, 1 - f, 1 - p), F1=(f, f - 1, p), F2=(1 - f, -f, 1 - p), H=(z, z, e), H1=(1 - z, -z, 1 - e), H2=(-z, -z, 1 - e),
            I=(H, -H, H), M=(H, O, H), N=(H, O, O), N1=(O, -H, O), X=(H, -H, O), Y=(mu, mu, de), Y1=(1 - mu, -mu, -de), Y2=(-mu, -mu, -de),
            Y3=(mu, mu - 1, de), Z=(O, O, H))
    elif v == "MCLC5":
        s2 = 1 - d(bc * bc, B * C)
        z = (d(B, A) + d(1 - d(bc, C), s2)) / 4
        e = H + 2 * z * d(bc, B)
        mu = e / 2 + d(B, 4 * A) - d(bc, 2 * A)
        n = 2 * mu - z
        om = d((4 * n - 1 - d(B, A) * s2) * C, 2 * bc)  # c / (2 b cos(alpha)) = C / (2 bc)
        rho = 1 - z * d(A, B)
        de = z * d(bc, B) + om / 2 - Q
        put(F=(n, n, om), F1=(1 - n, 1 - n, 1 - om), F2=(n, n - 1, om), H=(z, z, e), H1=(1 - z, -z, 1 - e), H2=(-z, -z, 1 - e),
            I=(rho, 1 - rho, H), I1=(1 - rho, rho - 1, H), L=(H, H, H), M=(H, O, H), N=(H, O, O), N1=(O, -H, O), X=(H, -H, O),
            Y=(mu, mu, de), Y1=(1 - mu, -mu, -de), Y2=(-mu, -mu, -de), Y3=(mu, mu - 1, de), Z=(O, O, H))
    elif v in ("TRI1a", "TRI2a"):
        put(L=(H, H, O), M=(O, H, H), N=(H, O, H), R=(H, H, H), X=(H, O, O), Y=(O, H, O), Z=(O, O, H))
    elif v in ("TRI1b", "TRI2b"):
        put(L=(H, -H, O), M=(O, O, H), N=(-H, -H, H), R=(O, -H, H), X=(O, -H, O), Y=(H, O, O), Z=(-H, O, H))
    else:
        raise KeyError(v)
    return r
