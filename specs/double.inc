//@define PRECISION double (2^-53 = 0.00000000000000011)
//@define T2 0.00000000000001
//@define T4 0.00000000000001
//@define T7 0.0000000000001
//@define T10 0.000000000001
//@define T14 0.00000000001
//@define T17 0.0000000001
//@define LIT 0.00000000000000045
//@define CUBELIT 0.00000000000001
//@define CUBEMIN 0.000000000000001
//@define CUBE 0.0000000000001
//@define CBRT 0.00000000000001
//@define POWF 0.00000000000001
//@define LABB 0.000000000001
//@define LABL 0.000000001
//@define LABA 0.000000002
//@define LABC 0.000000001
//@define FIN 0.0000000000001
//@define FOUT 0.000000000001
//@define XYZB 0.00000000000001
//@define INVIN 0.000000000001
//@define INVOUT 0.0000000001
//@define ENCIN 0.000002
//@define ENCOUT 0.00003
//@define DECOUT 0.00000000001
//@define BYTEC 0.000000000000001
//@define BYTE 0.000000000001
//@define CHAN 0.51
//@define XMAX 0.9504561
//@define YMAX 1.00000000001
//@define ZMAX 1.0886441
//@define SRGB 0.000002
//@define FROMLAB 0.000000001
