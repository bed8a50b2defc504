#pragma once
#include <cstddef>
#include <memory>
#include "utl/init_from.h"
template <int I> struct d { long v_; };
struct s0 {  };
struct t0 {  };
struct s1 { d<0> m0; };
struct t1 { d<0>& m0; };
struct s2 { d<0> m0; d<1> m1; };
struct t2 { d<1>& m0; d<0>& m1; };
struct s3 { d<0> m0; d<1> m1; d<2> m2; };
struct t3 { d<2>& m0; d<1>& m1; d<0>& m2; };
struct s4 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; };
struct t4 { d<3>& m0; d<2>& m1; d<1>& m2; d<0>& m3; };
struct s5 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; };
struct t5 { d<4>& m0; d<3>& m1; d<2>& m2; d<1>& m3; d<0>& m4; };
struct s6 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; };
struct t6 { d<5>& m0; d<4>& m1; d<3>& m2; d<2>& m3; d<1>& m4; d<0>& m5; };
struct s7 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; };
struct t7 { d<6>& m0; d<5>& m1; d<4>& m2; d<3>& m3; d<2>& m4; d<1>& m5; d<0>& m6; };
struct s8 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; };
struct t8 { d<7>& m0; d<6>& m1; d<5>& m2; d<4>& m3; d<3>& m4; d<2>& m5; d<1>& m6; d<0>& m7; };
struct s9 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; };
struct t9 { d<8>& m0; d<7>& m1; d<6>& m2; d<5>& m3; d<4>& m4; d<3>& m5; d<2>& m6; d<1>& m7; d<0>& m8; };
struct s10 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; };
struct t10 { d<9>& m0; d<8>& m1; d<7>& m2; d<6>& m3; d<5>& m4; d<4>& m5; d<3>& m6; d<2>& m7; d<1>& m8; d<0>& m9; };
struct s11 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; };
struct t11 { d<10>& m0; d<9>& m1; d<8>& m2; d<7>& m3; d<6>& m4; d<5>& m5; d<4>& m6; d<3>& m7; d<2>& m8; d<1>& m9; d<0>& m10; };
struct s12 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; };
struct t12 { d<11>& m0; d<10>& m1; d<9>& m2; d<8>& m3; d<7>& m4; d<6>& m5; d<5>& m6; d<4>& m7; d<3>& m8; d<2>& m9; d<1>& m10; d<0>& m11; };
struct s13 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; };
struct t13 { d<12>& m0; d<11>& m1; d<10>& m2; d<9>& m3; d<8>& m4; d<7>& m5; d<6>& m6; d<5>& m7; d<4>& m8; d<3>& m9; d<2>& m10; d<1>& m11; d<0>& m12; };
struct s14 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; };
struct t14 { d<13>& m0; d<12>& m1; d<11>& m2; d<10>& m3; d<9>& m4; d<8>& m5; d<7>& m6; d<6>& m7; d<5>& m8; d<4>& m9; d<3>& m10; d<2>& m11; d<1>& m12; d<0>& m13; };
struct s15 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; };
struct t15 { d<14>& m0; d<13>& m1; d<12>& m2; d<11>& m3; d<10>& m4; d<9>& m5; d<8>& m6; d<7>& m7; d<6>& m8; d<5>& m9; d<4>& m10; d<3>& m11; d<2>& m12; d<1>& m13; d<0>& m14; };
struct s16 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; };
struct t16 { d<15>& m0; d<14>& m1; d<13>& m2; d<12>& m3; d<11>& m4; d<10>& m5; d<9>& m6; d<8>& m7; d<7>& m8; d<6>& m9; d<5>& m10; d<4>& m11; d<3>& m12; d<2>& m13; d<1>& m14; d<0>& m15; };
struct s17 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; };
struct t17 { d<16>& m0; d<15>& m1; d<14>& m2; d<13>& m3; d<12>& m4; d<11>& m5; d<10>& m6; d<9>& m7; d<8>& m8; d<7>& m9; d<6>& m10; d<5>& m11; d<4>& m12; d<3>& m13; d<2>& m14; d<1>& m15; d<0>& m16; };
struct s18 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; };
struct t18 { d<17>& m0; d<16>& m1; d<15>& m2; d<14>& m3; d<13>& m4; d<12>& m5; d<11>& m6; d<10>& m7; d<9>& m8; d<8>& m9; d<7>& m10; d<6>& m11; d<5>& m12; d<4>& m13; d<3>& m14; d<2>& m15; d<1>& m16; d<0>& m17; };
struct s19 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; };
struct t19 { d<18>& m0; d<17>& m1; d<16>& m2; d<15>& m3; d<14>& m4; d<13>& m5; d<12>& m6; d<11>& m7; d<10>& m8; d<9>& m9; d<8>& m10; d<7>& m11; d<6>& m12; d<5>& m13; d<4>& m14; d<3>& m15; d<2>& m16; d<1>& m17; d<0>& m18; };
struct s20 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; };
struct t20 { d<19>& m0; d<18>& m1; d<17>& m2; d<16>& m3; d<15>& m4; d<14>& m5; d<13>& m6; d<12>& m7; d<11>& m8; d<10>& m9; d<9>& m10; d<8>& m11; d<7>& m12; d<6>& m13; d<5>& m14; d<4>& m15; d<3>& m16; d<2>& m17; d<1>& m18; d<0>& m19; };
struct s21 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; };
struct t21 { d<20>& m0; d<19>& m1; d<18>& m2; d<17>& m3; d<16>& m4; d<15>& m5; d<14>& m6; d<13>& m7; d<12>& m8; d<11>& m9; d<10>& m10; d<9>& m11; d<8>& m12; d<7>& m13; d<6>& m14; d<5>& m15; d<4>& m16; d<3>& m17; d<2>& m18; d<1>& m19; d<0>& m20; };
struct s22 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; };
struct t22 { d<21>& m0; d<20>& m1; d<19>& m2; d<18>& m3; d<17>& m4; d<16>& m5; d<15>& m6; d<14>& m7; d<13>& m8; d<12>& m9; d<11>& m10; d<10>& m11; d<9>& m12; d<8>& m13; d<7>& m14; d<6>& m15; d<5>& m16; d<4>& m17; d<3>& m18; d<2>& m19; d<1>& m20; d<0>& m21; };
struct s23 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; };
struct t23 { d<22>& m0; d<21>& m1; d<20>& m2; d<19>& m3; d<18>& m4; d<17>& m5; d<16>& m6; d<15>& m7; d<14>& m8; d<13>& m9; d<12>& m10; d<11>& m11; d<10>& m12; d<9>& m13; d<8>& m14; d<7>& m15; d<6>& m16; d<5>& m17; d<4>& m18; d<3>& m19; d<2>& m20; d<1>& m21; d<0>& m22; };
struct s24 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; d<23> m23; };
struct t24 { d<23>& m0; d<22>& m1; d<21>& m2; d<20>& m3; d<19>& m4; d<18>& m5; d<17>& m6; d<16>& m7; d<15>& m8; d<14>& m9; d<13>& m10; d<12>& m11; d<11>& m12; d<10>& m13; d<9>& m14; d<8>& m15; d<7>& m16; d<6>& m17; d<5>& m18; d<4>& m19; d<3>& m20; d<2>& m21; d<1>& m22; d<0>& m23; };
struct s25 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; d<23> m23; d<24> m24; };
struct t25 { d<24>& m0; d<23>& m1; d<22>& m2; d<21>& m3; d<20>& m4; d<19>& m5; d<18>& m6; d<17>& m7; d<16>& m8; d<15>& m9; d<14>& m10; d<13>& m11; d<12>& m12; d<11>& m13; d<10>& m14; d<9>& m15; d<8>& m16; d<7>& m17; d<6>& m18; d<5>& m19; d<4>& m20; d<3>& m21; d<2>& m22; d<1>& m23; d<0>& m24; };
struct s26 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; d<23> m23; d<24> m24; d<25> m25; };
struct t26 { d<25>& m0; d<24>& m1; d<23>& m2; d<22>& m3; d<21>& m4; d<20>& m5; d<19>& m6; d<18>& m7; d<17>& m8; d<16>& m9; d<15>& m10; d<14>& m11; d<13>& m12; d<12>& m13; d<11>& m14; d<10>& m15; d<9>& m16; d<8>& m17; d<7>& m18; d<6>& m19; d<5>& m20; d<4>& m21; d<3>& m22; d<2>& m23; d<1>& m24; d<0>& m25; };
struct s27 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; d<23> m23; d<24> m24; d<25> m25; d<26> m26; };
struct t27 { d<26>& m0; d<25>& m1; d<24>& m2; d<23>& m3; d<22>& m4; d<21>& m5; d<20>& m6; d<19>& m7; d<18>& m8; d<17>& m9; d<16>& m10; d<15>& m11; d<14>& m12; d<13>& m13; d<12>& m14; d<11>& m15; d<10>& m16; d<9>& m17; d<8>& m18; d<7>& m19; d<6>& m20; d<5>& m21; d<4>& m22; d<3>& m23; d<2>& m24; d<1>& m25; d<0>& m26; };
struct s28 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; d<23> m23; d<24> m24; d<25> m25; d<26> m26; d<27> m27; };
struct t28 { d<27>& m0; d<26>& m1; d<25>& m2; d<24>& m3; d<23>& m4; d<22>& m5; d<21>& m6; d<20>& m7; d<19>& m8; d<18>& m9; d<17>& m10; d<16>& m11; d<15>& m12; d<14>& m13; d<13>& m14; d<12>& m15; d<11>& m16; d<10>& m17; d<9>& m18; d<8>& m19; d<7>& m20; d<6>& m21; d<5>& m22; d<4>& m23; d<3>& m24; d<2>& m25; d<1>& m26; d<0>& m27; };
struct s29 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; d<23> m23; d<24> m24; d<25> m25; d<26> m26; d<27> m27; d<28> m28; };
struct t29 { d<28>& m0; d<27>& m1; d<26>& m2; d<25>& m3; d<24>& m4; d<23>& m5; d<22>& m6; d<21>& m7; d<20>& m8; d<19>& m9; d<18>& m10; d<17>& m11; d<16>& m12; d<15>& m13; d<14>& m14; d<13>& m15; d<12>& m16; d<11>& m17; d<10>& m18; d<9>& m19; d<8>& m20; d<7>& m21; d<6>& m22; d<5>& m23; d<4>& m24; d<3>& m25; d<2>& m26; d<1>& m27; d<0>& m28; };
struct s30 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; d<23> m23; d<24> m24; d<25> m25; d<26> m26; d<27> m27; d<28> m28; d<29> m29; };
struct t30 { d<29>& m0; d<28>& m1; d<27>& m2; d<26>& m3; d<25>& m4; d<24>& m5; d<23>& m6; d<22>& m7; d<21>& m8; d<20>& m9; d<19>& m10; d<18>& m11; d<17>& m12; d<16>& m13; d<15>& m14; d<14>& m15; d<13>& m16; d<12>& m17; d<11>& m18; d<10>& m19; d<9>& m20; d<8>& m21; d<7>& m22; d<6>& m23; d<5>& m24; d<4>& m25; d<3>& m26; d<2>& m27; d<1>& m28; d<0>& m29; };
struct s31 { d<0> m0; d<1> m1; d<2> m2; d<3> m3; d<4> m4; d<5> m5; d<6> m6; d<7> m7; d<8> m8; d<9> m9; d<10> m10; d<11> m11; d<12> m12; d<13> m13; d<14> m14; d<15> m15; d<16> m16; d<17> m17; d<18> m18; d<19> m19; d<20> m20; d<21> m21; d<22> m22; d<23> m23; d<24> m24; d<25> m25; d<26> m26; d<27> m27; d<28> m28; d<29> m29; d<30> m30; };
struct t31 { d<30>& m0; d<29>& m1; d<28>& m2; d<27>& m3; d<26>& m4; d<25>& m5; d<24>& m6; d<23>& m7; d<22>& m8; d<21>& m9; d<20>& m10; d<19>& m11; d<18>& m12; d<17>& m13; d<16>& m14; d<15>& m15; d<14>& m16; d<13>& m17; d<12>& m18; d<11>& m19; d<10>& m20; d<9>& m21; d<8>& m22; d<7>& m23; d<6>& m24; d<5>& m25; d<4>& m26; d<3>& m27; d<2>& m28; d<1>& m29; d<0>& m30; };
