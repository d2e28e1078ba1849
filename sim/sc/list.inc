SC(sc_c01)
SC(sc_c02)
SC(sc_c03)
SC(sc_c04)
SC(sc_c05)
SC(sc_c06)
SC(sc_c08)
SC(sc_c09)
