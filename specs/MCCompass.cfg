SPECIFICATION Spec
INVARIANTS EnumSane TypeOK Group Reversal Quarter DiagonalMeaning VectorsDistinct AllVectors SymbolsDistinct AlphabetSize Chains RoundTrip
