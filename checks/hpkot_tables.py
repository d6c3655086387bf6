"""Tables 69-92 and the suggested paths of Hinuma, Pizzi, Kumagai, Oba and Tanaka (2017), written down independently of the package.

Every parameter is expressed through the metric of the conventional cell: A = a^2, B = b^2, C = c^2, ac = a.c (scalar product)."""

G = "GAMMA"
PATHS = {
    "cP1": "Γ X M Γ R X|R M X1", "cP2": "Γ X M Γ R X|R M", "cF1": "Γ X U|K Γ L W X W2", "cF2": "Γ X U|K Γ L W X",
    "cI1": "Γ H N Γ P H|P N", "tP1": "Γ X M Γ Z R A Z|X R|M A", "tI1": "Γ X M Γ Z|Z0 M|X P N Γ", "tI2": "Γ X P N Γ M S|S0 Γ|X R|G M",
    "oP1": "Γ X S Y Γ Z U R T Z|X U|Y T|S R", "oF1": "Γ Y T Z Γ Σ0|U0 T|Y C0|A0 Z|Γ L", "oF2": "Γ T Z Y Γ Λ0|Q0 Z|T G0|H0 Y|Γ L",
    "oF3": "Γ Y C0|A0 Z B0|D0 T G0|H0 Y|T Γ Z|Γ L", "oI1": "Γ X F2|Σ0 Γ Y0|U0 X|Γ R W S Γ T W", "oI2": "Γ X U2|Y0 Γ Λ0|G2 X|Γ R W S Γ T W",
    "oI3": "Γ X F0|Σ0 Γ Λ0|G0 X|Γ R W S Γ T W", "oC1": "Γ Y C0|Σ0 Γ Z A0|E0 T Y|Γ S R Z T", "oC2": "Γ Y F0|Δ0 Γ Z B0|G0 T Y|Γ S R Z T",
    "hP1": "Γ M K Γ A L H A|L M|H K H2", "hP2": "Γ M K Γ A L H A|L M|H K", "hR1": "Γ T H2|H0 L Γ S0|S2 F Γ", "hR2": "Γ L T P0|P2 Γ F",
    "mP1": "Γ Z D B Γ A E Z C2 Y2 Γ", "mC1": "Γ C|C2 Y2 Γ M2 D|D2 A Γ|L2 Γ V2", "mC2": "Γ Y M A Γ|L2 Γ V2", "mC3": "Γ A I2|I M2 Γ Y|L2 Γ V2",
    "aP2": "Γ X|Y Γ Z|R Γ T|U Γ V", "aP3": "Γ X|Y Γ Z|R2 Γ T2|U2 Γ V2",
}
PATHS["oA1"], PATHS["oA2"] = PATHS["oC1"], PATHS["oC2"]


def path(s):
    r = PATHS[s]
    for g, n in (("Γ", G), ("Σ", "SIGMA"), ("Λ", "LAMBDA"), ("Δ", "DELTA"), (" ", "-")):
        r = r.replace(g, n)
    return r


def points(h, v, M):
    A, B, C, ac = M[0][0], M[1][1], M[2][2], M[0][2]
    d = h.div
    H, Q, O, I = h.q("1/2"), h.q("1/4"), h.q(0), h.q(1)
    t = h.q("1/3")
    r = {G: (O, O, O)}
    if v in ("cP1", "cP2"):
        r.update(R=(H, H, H), M=(H, H, O), X=(O, H, O), X1=(H, O, O))
    elif v in ("cF1", "cF2"):
        e, f = h.q("3/8"), h.q("5/8")
        r.update(X=(H, O, H), L=(H, H, H), W=(H, Q, 3 * Q), W2=(3 * Q, Q, H), K=(e, e, 3 * Q), U=(f, Q, f))
    elif v == "cI1":
        r.update(H=(H, -H, H), P=(Q, Q, Q), N=(O, O, H))
    elif v == "tP1":
        r.update(Z=(O, O, H), M=(H, H, O), A=(H, H, H), R=(O, H, H), X=(O, H, O))
    elif v == "tI1":
        e = (1 + d(C, A)) / 4
        r.update(M=(-H, H, H), X=(O, O, H), P=(Q, Q, Q), Z=(e, e, -e), Z0=(-e, 1 - e, e), N=(O, H, O))
    elif v == "tI2":
        e, z = (1 + d(A, C)) / 4, d(A, 2 * C)
        r.update(M=(H, H, -H), X=(O, O, H), P=(Q, Q, Q), N=(O, H, O), S0=(-e, e, e), S=(e, 1 - e, -e), R=(-z, z, H), G=(H, H, -z))
    elif v == "oP1":
        r.update(X=(H, O, O), Z=(O, O, H), U=(H, O, H), Y=(O, H, O), S=(H, H, O), T=(O, H, H), R=(H, H, H))
    elif v == "oF1":
        z, e = (1 + d(A, B) - d(A, C)) / 4, (1 + d(A, B) + d(A, C)) / 4
        r.update(T=(I, H, H), Z=(H, H, O), Y=(H, O, H), SIGMA0=(O, e, e), U0=(I, 1 - e, 1 - e), A0=(H, H + z, z), C0=(H, H - z, 1 - z), L=(H, H, H))
    elif v == "oF2":
        z, e = (1 + d(C, A) - d(C, B)) / 4, (1 + d(C, A) + d(C, B)) / 4
        r.update(T=(O, H, H), Z=(H, H, I), Y=(H, O, H), LAMBDA0=(e, e, O), Q0=(1 - e, 1 - e, I), G0=(H - z, 1 - z, H), H0=(H + z, z, H), L=(H, H, H))
    elif v == "oF3":
        e, de, f = (1 + d(A, B) - d(A, C)) / 4, (1 + d(B, A) - d(B, C)) / 4, (1 + d(C, B) - d(C, A)) / 4
        r.update(T=(O, H, H), Z=(H, H, O), Y=(H, O, H), A0=(H, H + e, e), C0=(H, H - e, 1 - e), B0=(H + de, H, de), D0=(H - de, H, 1 - de),
                 G0=(f, H + f, H), H0=(1 - f, H - f, H), L=(H, H, H))
    elif v in ("oI1", "oI2", "oI3"):
        r.update(S=(H, O, O), R=(O, H, O), T=(O, O, H), W=(Q, Q, Q))
        if v == "oI1":
            z, e, de, mu = (1 + d(A, C)) / 4, (1 + d(B, C)) / 4, d(B - A, 4 * C), d(A + B, 4 * C)
            r.update(X=(H, H, -H), SIGMA0=(-z, z, z), F2=(z, 1 - z, -z), Y0=(e, -e, e), U0=(1 - e, e, -e), L0=(-mu, mu, H - de),
                     M0=(mu, -mu, H + de), J0=(H - de, H + de, -mu))
        elif v == "oI2":
            z, e, de, mu = (1 + d(B, A)) / 4, (1 + d(C, A)) / 4, d(C - B, 4 * A), d(B + C, 4 * A)
            r.update(X=(-H, H, H), Y0=(z, -z, z), U2=(-z, z, 1 - z), LAMBDA0=(e, e, -e), G2=(-e, 1 - e, e), K=(H - de, -mu, mu),
                     K2=(H + de, mu, -mu), K4=(-mu, H - de, H + de))
        else:
            z, e, de, mu = (1 + d(C, B)) / 4, (1 + d(A, B)) / 4, d(A - C, 4 * B), d(C + A, 4 * B)
            r.update(X=(H, -H, H), SIGMA0=(-e, e, e), F0=(e, -e, 1 - e), LAMBDA0=(z, z, -z), G0=(1 - z, -z, z), V0=(mu, H - de, -mu),
                     H0=(-mu, H + de, mu), H2=(H + de, -mu, H - de))
    elif v in ("oC1", "oA1"):
        z = (1 + (d(A, B) if v == "oC1" else d(B, C))) / 4
        r.update(Y=(-H, H, O), T=(-H, H, H), Z=(O, O, H), S=(O, H, O), R=(O, H, H), SIGMA0=(z, z, O), C0=(-z, 1 - z, O), A0=(z, z, H), E0=(-z, 1 - z, H))
    elif v in ("oC2", "oA2"):
        z = (1 + (d(B, A) if v == "oC2" else d(C, B))) / 4
        r.update(Y=(H, H, O), T=(H, H, H), T2=(H, H, -H), Z=(O, O, H), Z2=(O, O, -H), S=(O, H, O), R=(O, H, H), R2=(O, H, -H),
                 DELTA0=(-z, z, O), F0=(z, 1 - z, O), B0=(-z, z, H), B2=(-z, z, -H), G0=(z, 1 - z, H), G2=(z, 1 - z, -H))
    elif v in ("hP1", "hP2"):
        r.update(A=(O, O, H), K=(t, t, O), H=(t, t, H), H2=(t, t, -H), M=(H, O, O), L=(H, O, H))
    elif v == "hR1":
        de = d(A, 4 * C)
        e, n = h.q("5/6") - 2 * de, t + de
        r.update(T=(H, H, H), L=(H, O, O), L2=(O, -H, O), L4=(O, O, -H), F=(H, O, H), F2=(H, H, O), S0=(n, -n, O), S2=(1 - n, O, n),
                 S4=(n, O, -n), S6=(1 - n, n, O), H0=(H, e - 1, 1 - e), H2=(e, 1 - e, H), H4=(e, H, 1 - e), H6=(H, 1 - e, e - 1),
                 M0=(n, e - 1, n), M2=(1 - n, 1 - e, 1 - n), M4=(e, n, n), M6=(1 - n, 1 - n, 1 - e), M8=(n, n, e - 1))
    elif v == "hR2":
        z = h.q("1/6") - d(C, 9 * A)
        e, n = H - 2 * z, H + z
        r.update(T=(H, -H, H), P0=(e, e - 1, e), P2=(e, e, e), R0=(1 - e, -e, -e), M=(1 - n, -n, 1 - n), M2=(n, n - 1, n - 1), L=(H, O, O), F=(H, -H, O))
    elif v[0] == "m":
        s2 = 1 - d(ac * ac, A * C)  # sin^2(beta)
        u, w = d(ac, C), d(ac, A)  # a cos(beta) / c, c cos(beta) / a
        if v == "mP1":
            e = d(1 + u, 2 * s2)
            n = H + e * w
            r.update(Z=(O, H, O), B=(O, O, H), B2=(O, O, -H), Y=(H, O, O), Y2=(-H, O, O), C=(H, H, O), C2=(-H, H, O), D=(O, H, H), D2=(O, H, -H),
                     A=(-H, O, H), E=(-H, H, H), H=(-e, O, 1 - n), H2=(e - 1, O, n), H4=(-e, O, -n), M=(-e, H, 1 - n), M2=(e - 1, H, n), M4=(-e, H, -n))
        elif v == "mC1":
            z = d(2 + u, 4 * s2)
            e = H - 2 * z * w
            p = 3 * Q - d(B, 4 * A * s2)
            f = p - (3 * Q - p) * u
            r.update(Y2=(-H, H, O), Y4=(H, -H, O), A=(O, O, H), M2=(-H, H, H), V=(H, O, O), V2=(O, H, O), L2=(O, H, H), C=(1 - p, 1 - p, O),
                     C2=(p - 1, p, O), C4=(p, p - 1, O), D=(f - 1, f, H), D2=(1 - f, 1 - f, H), E=(z - 1, 1 - z, 1 - e), E2=(-z, z, e), E4=(z, -z, 1 - e))
        else:
            z = (d(A, B) + d(1 + u, s2)) / 4
            e = H - 2 * z * w
            hh = dict(H=(-z, z, e), H2=(z, 1 - z, 1 - e), H4=(z, -z, 1 - e))
            if v == "mC2":
                mu, de = (1 + d(A, B)) / 4, -d(ac, 2 * B)
                f, p = 1 + z - 2 * mu, e - 2 * de
                r.update(Y=(H, H, O), A=(O, O, H), M=(H, H, H), V2=(O, H, O), L2=(O, H, H), F=(f - 1, 1 - f, 1 - p), F2=(1 - f, f, p),
                         F4=(f, 1 - f, 1 - p), G=(-mu, mu, de), G2=(mu, 1 - mu, -de), G4=(mu, -mu, -de), G6=(1 - mu, mu, de), **hh)
            else:
                rho = 1 - z * d(B, A)
                mu = e / 2 + d(A, 4 * B) + d(ac, 2 * B)
                n = 2 * mu - z
                om = d(C * (1 - 4 * n + d(A, B) * s2), 2 * ac)
                de = om / 2 - Q - z * w
                r.update(Y=(H, H, O), A=(O, O, H), M2=(-H, H, H), V=(H, O, O), V2=(O, H, O), L2=(O, H, H), I=(rho - 1, rho, H), I2=(1 - rho, 1 - rho, H),
                         K=(-n, n, om), K2=(n - 1, 1 - n, 1 - om), K4=(1 - n, n, om), N=(-mu, mu, de), N2=(mu, 1 - mu, -de), N4=(mu, -mu, -de),
                         N6=(1 - mu, mu, de), **hh)
    elif v == "aP2":
        r.update(Z=(O, O, H), Y=(O, H, O), X=(H, O, O), V=(H, H, O), U=(H, O, H), T=(O, H, H), R=(H, H, H))
    elif v == "aP3":
        r.update(Z=(O, O, H), Y=(O, H, O), Y2=(O, -H, O), X=(H, O, O), V2=(H, -H, O), U2=(-H, O, H), T2=(O, -H, H), R2=(-H, -H, H))
    else:
        raise KeyError(v)
    return r
