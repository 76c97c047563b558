CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 S01 S02 S03 S04 S05 S06 S07 S08 I05 Q01 Q02 Q03 Q05 Q04 Q06 Q07 Q08 I06 I04 I01 I02 I03 I10 I08 I09 X03 E01 E02 E03 X01 X02 G01 G02 C15 I07 S09 Q09 X04".split()
NA = {}
