SC(sc_c07) SC(sc_c10)
SC(sc_c11) SC(sc_c12) SC(sc_c13) SC(sc_c14) SC(sc_c15) SC(sc_c16) SC(sc_c17)
SC(sc_c18)
SC(sc_c19)
