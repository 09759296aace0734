import c01


class Check(c01.Check):
    ID = "C02"
    COHERENT = False
    RULE = c01.Check.RULE.replace("random fault-tree DAGs", "random fault-tree DAGs with NOT/XOR/NAND/NOR/IFF/IMPLY/cardinality and complemented arguments")
