INIT Init
NEXT Next
INVARIANTS Rates Balance SpectrumSums Emission Same Scaled
