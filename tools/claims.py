NOT_APPLICABLE = {}
CLAIMS = {}
for i in "F01 F02 F03 F04 N01 N02 C01 C02 S01 S02 S03 S04 S05 S06 M01 B01 D01 I01 E01 X01 T01 R01 R02 G01 H01".split():
    CLAIMS[i] = dict(contracts=i in ('F01','F02','F03','F04','N01','C01','C02','T01','X01','S01','S04','E01','I01'), level="other", technique="contracts on the real functions, deductive obligations plus bounded stand-ins",
        explanation="bounded stand-in", note="bounded stand-in")
