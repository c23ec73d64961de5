// Written by tools/gen_c17n.py: reflected structs of every size.
#pragma once
#if HX_PART == 1
struct S1 { static const int n = 1; int f0 = 1000;
MEO_JSONIZATION(f0)
int& at(int i) { int* p[] = { &f0 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S2 { static const int n = 2; int f0 = 1000, f1 = 1001;
MEO_JSONIZATION(f0, f1)
int& at(int i) { int* p[] = { &f0, &f1 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S3 { static const int n = 3; int f0 = 1000, f1 = 1001, f2 = 1002;
MEO_JSONIZATION(f0, f1, f2)
int& at(int i) { int* p[] = { &f0, &f1, &f2 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S4 { static const int n = 4; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003;
MEO_JSONIZATION(f0, f1, f2, f3)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S5 { static const int n = 5; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004;
MEO_JSONIZATION(f0, f1, f2, f3, f4)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S6 { static const int n = 6; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S7 { static const int n = 7; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S8 { static const int n = 8; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S9 { static const int n = 9; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S10 { static const int n = 10; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S11 { static const int n = 11; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S12 { static const int n = 12; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S13 { static const int n = 13; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S14 { static const int n = 14; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S15 { static const int n = 15; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S16 { static const int n = 16; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S17 { static const int n = 17; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S18 { static const int n = 18; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S19 { static const int n = 19; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S20 { static const int n = 20; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S21 { static const int n = 21; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S22 { static const int n = 22; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S23 { static const int n = 23; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S24 { static const int n = 24; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S25 { static const int n = 25; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S26 { static const int n = 26; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S27 { static const int n = 27; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S28 { static const int n = 28; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S29 { static const int n = 29; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S30 { static const int n = 30; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S31 { static const int n = 31; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S32 { static const int n = 32; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S33 { static const int n = 33; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S34 { static const int n = 34; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S35 { static const int n = 35; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S36 { static const int n = 36; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S37 { static const int n = 37; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S38 { static const int n = 38; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S39 { static const int n = 39; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S40 { static const int n = 40; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S41 { static const int n = 41; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S42 { static const int n = 42; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S43 { static const int n = 43; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S44 { static const int n = 44; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S45 { static const int n = 45; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S46 { static const int n = 46; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S47 { static const int n = 47; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S48 { static const int n = 48; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S49 { static const int n = 49; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S50 { static const int n = 50; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S51 { static const int n = 51; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S52 { static const int n = 52; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S53 { static const int n = 53; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S54 { static const int n = 54; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S55 { static const int n = 55; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S56 { static const int n = 56; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S57 { static const int n = 57; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S58 { static const int n = 58; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S59 { static const int n = 59; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057, f58 = 1058;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57, &f58 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S60 { static const int n = 60; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057, f58 = 1058, f59 = 1059;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57, &f58, &f59 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 1
struct S61 { static const int n = 61; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057, f58 = 1058, f59 = 1059, f60 = 1060;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57, &f58, &f59, &f60 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 2
struct S62 { static const int n = 62; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057, f58 = 1058, f59 = 1059, f60 = 1060, f61 = 1061;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57, &f58, &f59, &f60, &f61 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct S63 { static const int n = 63; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057, f58 = 1058, f59 = 1059, f60 = 1060, f61 = 1061, f62 = 1062;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57, &f58, &f59, &f60, &f61, &f62 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 0
struct S64 { static const int n = 64; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057, f58 = 1058, f59 = 1059, f60 = 1060, f61 = 1061, f62 = 1062, f63 = 1063;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, f61, f62, f63)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57, &f58, &f59, &f60, &f61, &f62, &f63 }; return *p[i]; } static bool opt(int) { return false; } static std::string key(int i) { return field(i); } };
#endif
#if HX_PART == 3
struct T3 { static const int n = 1; int f0 = 1000;
MEO_JSONIZATION(MEO_OPT MEO_KEY("other") f0)
int& at(int i) { int* p[] = { &f0 }; return *p[i]; } static bool opt(int i) { return i == 0; } static std::string key(int i) { return i == 0 ? std::string("other") : field(i); } };
#endif
#if HX_PART == 0
struct T4 { static const int n = 2; int f0 = 1000, f1 = 1001;
MEO_JSONIZATION(f0, MEO_OPT MEO_KEY("other") f1)
int& at(int i) { int* p[] = { &f0, &f1 }; return *p[i]; } static bool opt(int i) { return i == 1; } static std::string key(int i) { return i == 1 ? std::string("other") : field(i); } };
#endif
#if HX_PART == 1
struct T9 { static const int n = 7; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006;
MEO_JSONIZATION(f0, f1, f2, MEO_OPT f3, f4, f5, MEO_KEY("other") f6)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6 }; return *p[i]; } static bool opt(int i) { return i == 3; } static std::string key(int i) { return i == 6 ? std::string("other") : field(i); } };
#endif
#if HX_PART == 1
struct T17 { static const int n = 15; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, MEO_OPT f7, f8, f9, f10, f11, f12, f13, MEO_KEY("other") f14)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14 }; return *p[i]; } static bool opt(int i) { return i == 7; } static std::string key(int i) { return i == 14 ? std::string("other") : field(i); } };
#endif
#if HX_PART == 0
struct T32 { static const int n = 30; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, MEO_OPT f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, MEO_KEY("other") f29)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29 }; return *p[i]; } static bool opt(int i) { return i == 15; } static std::string key(int i) { return i == 29 ? std::string("other") : field(i); } };
#endif
#if HX_PART == 1
struct T33 { static const int n = 31; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, MEO_OPT f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, MEO_KEY("other") f30)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30 }; return *p[i]; } static bool opt(int i) { return i == 15; } static std::string key(int i) { return i == 30 ? std::string("other") : field(i); } };
#endif
#if HX_PART == 3
struct T63 { static const int n = 61; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057, f58 = 1058, f59 = 1059, f60 = 1060;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, MEO_OPT f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, MEO_KEY("other") f60)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57, &f58, &f59, &f60 }; return *p[i]; } static bool opt(int i) { return i == 30; } static std::string key(int i) { return i == 60 ? std::string("other") : field(i); } };
#endif
#if HX_PART == 0
struct T64 { static const int n = 62; int f0 = 1000, f1 = 1001, f2 = 1002, f3 = 1003, f4 = 1004, f5 = 1005, f6 = 1006, f7 = 1007, f8 = 1008, f9 = 1009, f10 = 1010, f11 = 1011, f12 = 1012, f13 = 1013, f14 = 1014, f15 = 1015, f16 = 1016, f17 = 1017, f18 = 1018, f19 = 1019, f20 = 1020, f21 = 1021, f22 = 1022, f23 = 1023, f24 = 1024, f25 = 1025, f26 = 1026, f27 = 1027, f28 = 1028, f29 = 1029, f30 = 1030, f31 = 1031, f32 = 1032, f33 = 1033, f34 = 1034, f35 = 1035, f36 = 1036, f37 = 1037, f38 = 1038, f39 = 1039, f40 = 1040, f41 = 1041, f42 = 1042, f43 = 1043, f44 = 1044, f45 = 1045, f46 = 1046, f47 = 1047, f48 = 1048, f49 = 1049, f50 = 1050, f51 = 1051, f52 = 1052, f53 = 1053, f54 = 1054, f55 = 1055, f56 = 1056, f57 = 1057, f58 = 1058, f59 = 1059, f60 = 1060, f61 = 1061;
MEO_JSONIZATION(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, MEO_OPT f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50, f51, f52, f53, f54, f55, f56, f57, f58, f59, f60, MEO_KEY("other") f61)
int& at(int i) { int* p[] = { &f0, &f1, &f2, &f3, &f4, &f5, &f6, &f7, &f8, &f9, &f10, &f11, &f12, &f13, &f14, &f15, &f16, &f17, &f18, &f19, &f20, &f21, &f22, &f23, &f24, &f25, &f26, &f27, &f28, &f29, &f30, &f31, &f32, &f33, &f34, &f35, &f36, &f37, &f38, &f39, &f40, &f41, &f42, &f43, &f44, &f45, &f46, &f47, &f48, &f49, &f50, &f51, &f52, &f53, &f54, &f55, &f56, &f57, &f58, &f59, &f60, &f61 }; return *p[i]; } static bool opt(int i) { return i == 31; } static std::string key(int i) { return i == 61 ? std::string("other") : field(i); } };
#endif
#if HX_PART == 0
#define SIZES(X) X(4, S4) X(8, S8) X(12, S12) X(16, S16) X(20, S20) X(24, S24) X(28, S28) X(32, S32) X(36, S36) X(40, S40) X(44, S44) X(48, S48) X(52, S52) X(56, S56) X(60, S60) X(64, S64) X(104, T4) X(132, T32) X(164, T64)
#endif
#if HX_PART == 1
#define SIZES(X) X(1, S1) X(5, S5) X(9, S9) X(13, S13) X(17, S17) X(21, S21) X(25, S25) X(29, S29) X(33, S33) X(37, S37) X(41, S41) X(45, S45) X(49, S49) X(53, S53) X(57, S57) X(61, S61) X(109, T9) X(117, T17) X(133, T33)
#endif
#if HX_PART == 2
#define SIZES(X) X(2, S2) X(6, S6) X(10, S10) X(14, S14) X(18, S18) X(22, S22) X(26, S26) X(30, S30) X(34, S34) X(38, S38) X(42, S42) X(46, S46) X(50, S50) X(54, S54) X(58, S58) X(62, S62)
#endif
#if HX_PART == 3
#define SIZES(X) X(3, S3) X(7, S7) X(11, S11) X(15, S15) X(19, S19) X(23, S23) X(27, S27) X(31, S31) X(35, S35) X(39, S39) X(43, S43) X(47, S47) X(51, S51) X(55, S55) X(59, S59) X(63, S63) X(103, T3) X(163, T63)
#endif
