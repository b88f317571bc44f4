REFLECTOR_CREATE(En1, ENUM, 1, CLASS, e0)
struct Cl1 : ReflectorBase<Cl1> { int16 m0 = 0; };
REFLECTOR_CREATE(Cl1, 1, VARNAMES, m0)
REFLECTOR_CREATE(En2, ENUM, 1, CLASS, e0, e1)
struct Cl2 : ReflectorBase<Cl2> { int16 m0 = 0, m1 = 0; };
REFLECTOR_CREATE(Cl2, 1, VARNAMES, m0, m1)
REFLECTOR_CREATE(En29, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28)
struct Cl29 : ReflectorBase<Cl29> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0; };
REFLECTOR_CREATE(Cl29, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28)
REFLECTOR_CREATE(En30, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29)
struct Cl30 : ReflectorBase<Cl30> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0; };
REFLECTOR_CREATE(Cl30, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29)
REFLECTOR_CREATE(En31, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30)
struct Cl31 : ReflectorBase<Cl31> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0; };
REFLECTOR_CREATE(Cl31, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30)
REFLECTOR_CREATE(En40, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30, e31, e32, e33, e34, e35, e36, e37, e38, e39)
struct Cl40 : ReflectorBase<Cl40> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0; };
REFLECTOR_CREATE(Cl40, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39)
REFLECTOR_CREATE(En60, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30, e31, e32, e33, e34, e35, e36, e37, e38, e39, e40, e41, e42, e43, e44, e45, e46, e47, e48, e49, e50, e51, e52, e53, e54, e55, e56, e57, e58, e59)
struct Cl60 : ReflectorBase<Cl60> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0, m43 = 0, m44 = 0, m45 = 0, m46 = 0, m47 = 0, m48 = 0, m49 = 0, m50 = 0, m51 = 0, m52 = 0, m53 = 0, m54 = 0, m55 = 0, m56 = 0, m57 = 0, m58 = 0, m59 = 0; };
REFLECTOR_CREATE(Cl60, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57, m58, m59)
REFLECTOR_CREATE(En75, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30, e31, e32, e33, e34, e35, e36, e37, e38, e39, e40, e41, e42, e43, e44, e45, e46, e47, e48, e49, e50, e51, e52, e53, e54, e55, e56, e57, e58, e59, e60, e61, e62, e63, e64, e65, e66, e67, e68, e69, e70, e71, e72, e73, e74)
struct Cl75 : ReflectorBase<Cl75> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0, m43 = 0, m44 = 0, m45 = 0, m46 = 0, m47 = 0, m48 = 0, m49 = 0, m50 = 0, m51 = 0, m52 = 0, m53 = 0, m54 = 0, m55 = 0, m56 = 0, m57 = 0, m58 = 0, m59 = 0, m60 = 0, m61 = 0, m62 = 0, m63 = 0, m64 = 0, m65 = 0, m66 = 0, m67 = 0, m68 = 0, m69 = 0, m70 = 0, m71 = 0, m72 = 0, m73 = 0, m74 = 0; };
REFLECTOR_CREATE(Cl75, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57, m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69, m70, m71, m72, m73, m74)
REFLECTOR_CREATE(En85, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30, e31, e32, e33, e34, e35, e36, e37, e38, e39, e40, e41, e42, e43, e44, e45, e46, e47, e48, e49, e50, e51, e52, e53, e54, e55, e56, e57, e58, e59, e60, e61, e62, e63, e64, e65, e66, e67, e68, e69, e70, e71, e72, e73, e74, e75, e76, e77, e78, e79, e80, e81, e82, e83, e84)
struct Cl85 : ReflectorBase<Cl85> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0, m43 = 0, m44 = 0, m45 = 0, m46 = 0, m47 = 0, m48 = 0, m49 = 0, m50 = 0, m51 = 0, m52 = 0, m53 = 0, m54 = 0, m55 = 0, m56 = 0, m57 = 0, m58 = 0, m59 = 0, m60 = 0, m61 = 0, m62 = 0, m63 = 0, m64 = 0, m65 = 0, m66 = 0, m67 = 0, m68 = 0, m69 = 0, m70 = 0, m71 = 0, m72 = 0, m73 = 0, m74 = 0, m75 = 0, m76 = 0, m77 = 0, m78 = 0, m79 = 0, m80 = 0, m81 = 0, m82 = 0, m83 = 0, m84 = 0; };
REFLECTOR_CREATE(Cl85, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57, m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69, m70, m71, m72, m73, m74, m75, m76, m77, m78, m79, m80, m81, m82, m83, m84)
REFLECTOR_CREATE(En86, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30, e31, e32, e33, e34, e35, e36, e37, e38, e39, e40, e41, e42, e43, e44, e45, e46, e47, e48, e49, e50, e51, e52, e53, e54, e55, e56, e57, e58, e59, e60, e61, e62, e63, e64, e65, e66, e67, e68, e69, e70, e71, e72, e73, e74, e75, e76, e77, e78, e79, e80, e81, e82, e83, e84, e85)
struct Cl86 : ReflectorBase<Cl86> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0, m43 = 0, m44 = 0, m45 = 0, m46 = 0, m47 = 0, m48 = 0, m49 = 0, m50 = 0, m51 = 0, m52 = 0, m53 = 0, m54 = 0, m55 = 0, m56 = 0, m57 = 0, m58 = 0, m59 = 0, m60 = 0, m61 = 0, m62 = 0, m63 = 0, m64 = 0, m65 = 0, m66 = 0, m67 = 0, m68 = 0, m69 = 0, m70 = 0, m71 = 0, m72 = 0, m73 = 0, m74 = 0, m75 = 0, m76 = 0, m77 = 0, m78 = 0, m79 = 0, m80 = 0, m81 = 0, m82 = 0, m83 = 0, m84 = 0, m85 = 0; };
REFLECTOR_CREATE(Cl86, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57, m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69, m70, m71, m72, m73, m74, m75, m76, m77, m78, m79, m80, m81, m82, m83, m84, m85)
REFLECTOR_CREATE(En88, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30, e31, e32, e33, e34, e35, e36, e37, e38, e39, e40, e41, e42, e43, e44, e45, e46, e47, e48, e49, e50, e51, e52, e53, e54, e55, e56, e57, e58, e59, e60, e61, e62, e63, e64, e65, e66, e67, e68, e69, e70, e71, e72, e73, e74, e75, e76, e77, e78, e79, e80, e81, e82, e83, e84, e85, e86, e87)
struct Cl88 : ReflectorBase<Cl88> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0, m43 = 0, m44 = 0, m45 = 0, m46 = 0, m47 = 0, m48 = 0, m49 = 0, m50 = 0, m51 = 0, m52 = 0, m53 = 0, m54 = 0, m55 = 0, m56 = 0, m57 = 0, m58 = 0, m59 = 0, m60 = 0, m61 = 0, m62 = 0, m63 = 0, m64 = 0, m65 = 0, m66 = 0, m67 = 0, m68 = 0, m69 = 0, m70 = 0, m71 = 0, m72 = 0, m73 = 0, m74 = 0, m75 = 0, m76 = 0, m77 = 0, m78 = 0, m79 = 0, m80 = 0, m81 = 0, m82 = 0, m83 = 0, m84 = 0, m85 = 0, m86 = 0, m87 = 0; };
REFLECTOR_CREATE(Cl88, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57, m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69, m70, m71, m72, m73, m74, m75, m76, m77, m78, m79, m80, m81, m82, m83, m84, m85, m86, m87)
REFLECTOR_CREATE(En89, ENUM, 1, CLASS, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, e25, e26, e27, e28, e29, e30, e31, e32, e33, e34, e35, e36, e37, e38, e39, e40, e41, e42, e43, e44, e45, e46, e47, e48, e49, e50, e51, e52, e53, e54, e55, e56, e57, e58, e59, e60, e61, e62, e63, e64, e65, e66, e67, e68, e69, e70, e71, e72, e73, e74, e75, e76, e77, e78, e79, e80, e81, e82, e83, e84, e85, e86, e87, e88)
struct Cl89 : ReflectorBase<Cl89> { int16 m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0, m43 = 0, m44 = 0, m45 = 0, m46 = 0, m47 = 0, m48 = 0, m49 = 0, m50 = 0, m51 = 0, m52 = 0, m53 = 0, m54 = 0, m55 = 0, m56 = 0, m57 = 0, m58 = 0, m59 = 0, m60 = 0, m61 = 0, m62 = 0, m63 = 0, m64 = 0, m65 = 0, m66 = 0, m67 = 0, m68 = 0, m69 = 0, m70 = 0, m71 = 0, m72 = 0, m73 = 0, m74 = 0, m75 = 0, m76 = 0, m77 = 0, m78 = 0, m79 = 0, m80 = 0, m81 = 0, m82 = 0, m83 = 0, m84 = 0, m85 = 0, m86 = 0, m87 = 0, m88 = 0; };
REFLECTOR_CREATE(Cl89, 1, VARNAMES, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35, m36, m37, m38, m39, m40, m41, m42, m43, m44, m45, m46, m47, m48, m49, m50, m51, m52, m53, m54, m55, m56, m57, m58, m59, m60, m61, m62, m63, m64, m65, m66, m67, m68, m69, m70, m71, m72, m73, m74, m75, m76, m77, m78, m79, m80, m81, m82, m83, m84, m85, m86, m87, m88)
#define SIZES(X) X(1) X(2) X(29) X(30) X(31) X(40) X(60) X(75) X(85) X(86) X(88) X(89)
