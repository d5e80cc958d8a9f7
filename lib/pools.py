"""The pools of lines from which the bounded model (spec/MC.tla) builds all behaviours.

posts: postings per transaction; xacts: transactions per journal; reads: sources; len: bound on the
length of a behaviour; wild: any line in any mode; last: only behaviours with all reads are replayed.
Each property has a list of models for the quick tier and one for the thorough tier.
"""

H1 = "2023-01-02 One"
H2 = "2023-03-04=2023-05-06 Two  ; note"
H3 = "2024-02-29"
Q = ["0", "1", "-1", "2.50", "-0.5", "10000", "9999.9999", "123456789.123456789", "-99999999", "0.00001"]
S = ["EUR", "$", "€", "e"]


def m(lines, posts=3, xacts=1, reads=1, length=12, wild=False, last=True, files=(), quantities=(), symbols=()):
    return {"lines": lines, "posts": posts, "xacts": xacts, "reads": reads, "len": length, "wild": wild, "last": last,
            "files": [{"name": n, "text": t, "bad": b} for n, t, b in files],
            "quantities": list(quantities), "symbols": list(symbols)}


P_ONE = ["    A  10 EUR", "    A:B  -10 EUR", "    B  5 EUR", "    A  -5.00 EUR", "    C", "    B  0 EUR"]
P_TWO = P_ONE + ["    A  10 USD", "    B  -10.0 USD", "    A  2 USD @ 5 EUR", "    B  -2 USD @@ 10 EUR"]
P_COST = ["    A  2 AB @ 5 EUR", "    A  -2 AB @ 5 EUR", "    B  -2 AB @@ 10 EUR", "    B  2 AB @@ 10 EUR", "    C  10 EUR",
          "    C  -10 EUR", "    C", "    D  0 AB @ 5 EUR", "    D  3 AB @ 0 EUR", "    E  1 AB"]
P_EXCH = ["    A  10 EUR", "    A  -10 EUR", "    B  4 USD", "    B  -4 USD", "    B  -5 USD", "    C  0 EUR", "    C  0 USD",
          "    A  3 EUR", "    D"]

MODELS = {
    "C01": ([m([H1] + P_TWO, 3)], [m([H1] + P_TWO + P_COST[:6], 3), m([H1] + P_TWO, 4, length=14)]),
    "C02": ([m([H1] + P_TWO + ["    D"], 3)], [m([H1] + P_TWO + ["    D"], 4), m([H1] + P_COST, 4)]),
    "C03": ([m([H1, "    A  10 EUR", "    A  EUR-10.0", "    B  $5.00", "    B:C  -5$", "    C  0.00 €", "    A  10.000EUR",
                "    B", "    C  € -0", "    B  1", "    B  -1.0"], 3)],
            [m([H1, "    A  10 EUR", "    A  EUR-10.0", "    B  $5.00", "    B:C  -5$", "    C  0.00 €", "    A  10.000EUR", "    B",
                "    C  € -0", "    B  1", "    B  -1.0"], 4)]),
    "C04": ([m([H1, "", "    A:B:C  1 EUR", "    A  -1 EUR", "    A:B  -1 EUR", "    B:A  1 EUR", "    B", "    A:A:A  0 EUR"], 2, 2)],
            [m([H1, "", "    A:B:C  1 EUR", "    A  -1 EUR", "    A:B  -1 EUR", "    B:A  1 EUR", "    B", "    A:A:A  0 EUR"], 3, 2)]),
    "C05": ([m([H1, ""] + P_TWO[:6] + P_TWO[8:], 2, 2)], [m([H1, ""] + P_TWO, 3, 2, length=9)]),
    "C06": ([m([H1, ""] + ["    A  10 EUR", "    A:B  -10 EUR", "    A:B:C  4 USD", "    A:D  -4 USD", "    A:B:C  -5 EUR", "    A", "    D:A  5 EUR"],
               2, 2)],
            [m([H1, ""] + ["    A  10 EUR", "    A:B  -10 EUR", "    A:B:C  4 USD", "    A:D  -4 USD", "    A:B:C  -5 EUR", "    A", "    D:A  5 EUR"],
               3, 2, length=10)]),
    "C07": ([m([H1, ""] + ["    B  10 EUR", "    A:B  -10 EUR", "    b:C  4 USD", "    AB  -4 USD", "    A", "    A:B:C  0 EUR"], 3, 1),
             m([H1, ""] + ["    B  10 EUR", "    A:B  -10 EUR", "    b:C  4 USD", "    AB", "    A:a  -4 USD"], 2, 2)],
            [m([H1, ""] + ["    B  10 EUR", "    A:B  -10 EUR", "    b:C  4 USD", "    AB  -4 USD", "    A", "    A:B:C  0 EUR"], 3, 2, length=10)]),
    "C09": ([m([H1, ""] + ["    A  10 EUR", "    A:B  -10 EUR", "    B  -10 EUR", "    B", "    C  1 USD"], 2, 2, 2, 10)],
            [m([H1, ""] + ["    A  10 EUR", "    A:B  -10 EUR", "    B  -10 EUR", "    B", "    C  1 USD"], 2, 3, 2, 12)]),
    "C10": ([m([H1, "", "P 2023-01-01 EUR 2 USD", "P 2023-01-01 AB 2 EUR", "    A  1 EUR", "    A  -1 EUR", "    B  1 Eur @ 1 USD", "    B",
                "    A  1 EUR {2 XY}"], 2, 2, 1, 9)],
            [m([H1, "", "P 2023-01-01 EUR 2 USD", "P 2023-01-01 AB 2 EUR", "    A  1 EUR", "    A  -1 EUR", "    B  1 Eur @ 1 USD", "    B",
                "    A  1 EUR {2 XY}", "    C  1"], 3, 2, 1, 10)]),
    "C11": ([m([H1] + P_COST, 3)], [m([H1] + P_COST, 4), m([H1, ""] + P_COST, 2, 2, length=10)]),
    "C12": ([m([H1] + P_EXCH, 3)], [m([H1] + P_EXCH, 4), m([H1] + P_EXCH + P_COST[:4], 3)]),
    "C13": ([m([H1, "", "P 2023-01-02 AB 7 EUR"] + P_COST[:7] + P_EXCH[2:4], 2, 2, 1, 8)],
            [m([H1, H2, "", "P 2023-01-02 AB 7 EUR"] + P_COST + P_EXCH[2:4], 2, 2, 1, 10), m([H1] + P_COST + P_EXCH[2:4], 3)]),
    "C14": ([m([H1, "", "P 2023-01-02 AB 7 EUR", "P 2023-01-02 00:00:00 AB 8.50 EUR", "P 2023-01-02 23:59:59 AB 9 EUR", "P 2023-01-03 EUR 0.10 AB",
                "P 2022-12-31 AB 0 EUR", "    A  2 AB @ 5 EUR", "    B"], 2, 1, 1, 6)],
            [m([H1, "", "P 2023-01-02 AB 7 EUR", "P 2023-01-02 00:00:00 AB 8.50 EUR", "P 2023-01-02 23:59:59 AB 9 EUR", "P 2023-01-03 EUR 0.10 AB",
                "P 2022-12-31 AB 0 EUR", "    A  2 AB @ 5 EUR", "    B"], 2, 2, 1, 7)]),
    "C15": ([m(["P 2023-01-02 A 2 B", "P 2023-01-03 A 3 B", "P 2023-01-01 B 5 C", "P 2023-02-01 C 7 D", "P 2023-01-05 A 11 C", "P 2023-01-04 B 13 D",
                "P 2023-01-06 D 0.5 A"], 0, 1, 1, 5)],
            [m(["P 2023-01-02 A 2 B", "P 2023-01-03 A 3 B", "P 2023-01-01 B 5 C", "P 2023-02-01 C 7 D", "P 2023-01-05 A 11 C", "P 2023-01-04 B 13 D",
                "P 2023-01-06 D 0.5 A"], 0, 1, 1, 7)]),
    "C16": ([m([H1, H2, H3, "2023-12-31  padded payee  ", "2023-01-01 a;b", "2023-01-01=2022-12-31", "2023-01-01 x  ;", "", "    A  1 EUR", "    B"], 2, 2)],
            [m([H1, H2, H3, "2023-12-31  padded payee  ", "2023-01-01 a;b", "2023-01-01=2022-12-31", "2023-01-01 x  ;", "2023-02-29 x", "2023-01-01 x  ; y  ; z",
                "", "    A  1 EUR", "    ; n", "    B"], 2, 2, length=10)]),
    "C17": ([m([H1, H2, "    A  1 EUR", "    B", "    ; one", "    ;two  ", "    ;", "    C  0 EUR  ; inline"], 2, 1, 1, 7)],
            [m([H1, H2, "", "    A  1 EUR", "    B", "    ; one", "    ;two  ", "    ;", "    C  0 EUR  ; inline"], 3, 1, 1, 9)]),
    "C18": ([m([H1, H2, "", "; comment", "  ", "P 2023-01-02 AB 7 EUR", "    A  1 EUR", "    B:C  2 AB @ 3 EUR", "    D", "    ; n"], 2, 1, 1, 7)],
            [m([H1, H2, "", "; comment", "  ", "P 2023-01-02 AB 7 EUR", "    A  1 EUR", "    B:C  2 AB @ 3 EUR", "    D", "    ; n", "* org"], 2, 2, 1, 9)]),
    "C19": ([m([H1, "", "P 2023-01-02 AB 7 EUR", "include mc_i.ledger", "    A  1 EUR", "    B"], 2, 3, 2, 10,
               files=[("mc_i.ledger", "2023-02-02 Inc\n    I  3 AB @ 2 EUR\n    J\n\nP 2023-01-02 AB 8 EUR\n", False)])],
            [m([H1, "", "P 2023-01-02 AB 7 EUR", "include mc_i.ledger", "include mc_k.ledger", "    A  1 EUR", "    B"], 2, 4, 3, 11,
               files=[("mc_i.ledger", "2023-02-02 Inc\n    I  3 AB @ 2 EUR\n    J\n\nP 2023-01-02 AB 8 EUR\n", False),
                      ("mc_k.ledger", "; nested\ninclude mc_i.ledger\n2023-02-03 Last\n    K  1\n    L", False)])]),
    "C20": ([m([H1, "", "    A  1 EUR", "    B", "    B  EUR", "    B  1 EUR @", "    B  1 x y", "    B  1.2.3 EUR", "    B  -1 EUR {2 USD", "    B  -1 EUR {}",
                "2023-02-30 x", "account A", "P 2023-01-01 EUR", "include mc_missing.ledger", "    A  -1 EUR @ 1.2.3 USD"], 2, 1, 1, 5, wild=True)],
            [m([H1, "", "    A  1 EUR", "    B", "    B  EUR", "    B  1 EUR @", "    B  1 x y", "    B  1.2.3 EUR", "    B  -1 EUR {2 USD", "    B  -1 EUR {}",
                "2023-02-30 x", "account A", "P 2023-01-01 EUR", "include mc_missing.ledger", "    A  -1 EUR @ 1.2.3 USD", "include mc_bad.ledger",
                "    B  -1 EUR [2023-13-01]", "P 2023-01-01 EUR 1.2.3 USD"], 2, 2, 1, 5, wild=True,
               files=[("mc_bad.ledger", "2023-01-01 x\n    A  1 EUR\n    B\n\n", True)])]),
    "C21": ([m([H1, "", "    A  1 EUR", "    B", "    A:C  2 EUR", "    B  2 AB @ 3 EUR", "P 2023-01-02 AB 7 EUR"], 2, 2, 2, 9)],
            [m([H1, "", "    A  1 EUR", "    B", "    A:C  2 EUR", "    B  2 AB @ 3 EUR", "P 2023-01-02 AB 7 EUR", "    B  bad amount"], 2, 3, 3, 10)]),
    "C22": ([m([H1, "", "    A:B:C  1 EUR", "    A", "    B:A  -1 EUR", "    a  -1 USD"], 3, 1)],
            [m([H1, "", "    A:B:C  1 EUR", "    A", "    B:A  -1 EUR", "    a  -1 USD", "    A:B  0 EUR"], 3, 2, length=10)]),
    "C24": ([m([H1, "    A  1 EUR"], 1, quantities=Q)], [m([H1, "    A  1 EUR"], 1, quantities=Q + ["79228162514264337593543950335", "-0.0000000000000000000000000001", "7", "-3.333"])]),
    "C25": ([m([H1, "", "    A  1 EUR", "    B", "    A:C  2 AB", "    B  2 AB @ 3 EUR", "P 2023-01-02 AB 7 EUR", "P 2023-01-02 EUR 2 XY"], 2, 1, 1, 6)],
            [m([H1, "", "    A  1 EUR", "    B", "    A:C  2 AB", "    B  2 AB @ 3 EUR", "P 2023-01-02 AB 7 EUR", "P 2023-01-02 EUR 2 XY"], 2, 2, 1, 8)]),
    "C26": ([m([H1, "    A  2 AB {5 EUR} @ 6 EUR", "    A  -2 AB @@ 6 EUR", "    A  1 AB", "    B  3 XY [2023-01-01]", "    B  -1 XY {2 AB}", "    B"], 3)],
            [m([H1, "", "    A  2 AB {5 EUR} @ 6 EUR", "    A  -2 AB @@ 6 EUR", "    A  1 AB", "    B  3 XY [2023-01-01]", "    B  -1 XY {2 AB}", "    B"], 2, 2)]),
    "C27": ([m([H1, "    A  2 AB {5 EUR}", "    A  2 AB {5 EUR} [2023-01-01] @ 6 EUR", "    A  -2 AB [2023-01-01]", "    A  -2 AB {6 EUR} @@ 12 EUR", "    B  12 EUR",
                "    B  -12 EUR {1 XY}", "    B"], 3)],
            [m([H1, "    A  2 AB {5 EUR}", "    A  2 AB {5 EUR} [2023-01-01] @ 6 EUR", "    A  -2 AB [2023-01-01]", "    A  -2 AB {6 EUR} @@ 12 EUR", "    B  12 EUR",
                "    B  -12 EUR {1 XY}", "    B"], 4)]),
    "C28": ([m([H1, "    A  1.50 EUR", "    A  EUR1.50", "    B  -1.50EUR", "    B  EUR -1.50", "    C  2 AB @@ EUR1.50", "    C  2 AB @@ 1.50 EUR", "    B"], 2,
               quantities=Q, symbols=S)],
            [m([H1, "    A  1.50 EUR", "    A  EUR1.50", "    B  -1.50EUR", "    B  EUR -1.50", "    C  2 AB @@ EUR1.50", "    C  2 AB @@ 1.50 EUR", "    B"], 3,
               quantities=Q, symbols=S)]),
}
MODELS["C29"] = ([m([H1, "    A  1 EUR"], 1, quantities=Q[:6], symbols=S[:3])], [m([H1, "    A  1 EUR"], 1, quantities=Q, symbols=S)])
MODELS["C08"] = MODELS["C07"]
MODELS["C23"] = MODELS["C07"]
