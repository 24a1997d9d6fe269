// Generated by gen_members.py
#pragma once

struct S1 { std::uint16_t m0; template <typename F> void each(F f) const { f(m0); } };
struct M1 { std::uint16_t m0; template <typename F> void each(F f) const { f(m0); } using serialize = zpp::bits::members<1>; };
struct S2 { std::uint32_t m0; std::uint8_t m1; template <typename F> void each(F f) const { f(m0); f(m1); } };
struct M2 { std::uint32_t m0; std::uint8_t m1; template <typename F> void each(F f) const { f(m0); f(m1); } using serialize = zpp::bits::members<2>; };
struct S3 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); } };
struct M3 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); } using serialize = zpp::bits::members<3>; };
struct S4 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); } };
struct M4 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); } using serialize = zpp::bits::members<4>; };
struct S5 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); } };
struct M5 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); } using serialize = zpp::bits::members<5>; };
struct S6 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); } };
struct M6 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); } using serialize = zpp::bits::members<6>; };
struct S7 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); } };
struct M7 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); } using serialize = zpp::bits::members<7>; };
struct S8 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); } };
struct M8 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); } using serialize = zpp::bits::members<8>; };
struct S9 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); } };
struct M9 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); } using serialize = zpp::bits::members<9>; };
struct S10 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); } };
struct M10 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); } using serialize = zpp::bits::members<10>; };
struct S11 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); } };
struct M11 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); } using serialize = zpp::bits::members<11>; };
struct S12 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); } };
struct M12 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); } using serialize = zpp::bits::members<12>; };
struct S13 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); } };
struct M13 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); } using serialize = zpp::bits::members<13>; };
struct S14 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); } };
struct M14 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); } using serialize = zpp::bits::members<14>; };
struct S15 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); } };
struct M15 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); } using serialize = zpp::bits::members<15>; };
struct S16 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); } };
struct M16 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); } using serialize = zpp::bits::members<16>; };
struct S17 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); } };
struct M17 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); } using serialize = zpp::bits::members<17>; };
struct S18 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); } };
struct M18 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); } using serialize = zpp::bits::members<18>; };
struct S19 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); } };
struct M19 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); } using serialize = zpp::bits::members<19>; };
struct S20 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); } };
struct M20 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); } using serialize = zpp::bits::members<20>; };
struct S21 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); } };
struct M21 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); } using serialize = zpp::bits::members<21>; };
struct S22 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); } };
struct M22 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); } using serialize = zpp::bits::members<22>; };
struct S23 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); } };
struct M23 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); } using serialize = zpp::bits::members<23>; };
struct S24 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); } };
struct M24 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); } using serialize = zpp::bits::members<24>; };
struct S25 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); } };
struct M25 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); } using serialize = zpp::bits::members<25>; };
struct S26 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); } };
struct M26 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); } using serialize = zpp::bits::members<26>; };
struct S27 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); } };
struct M27 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); } using serialize = zpp::bits::members<27>; };
struct S28 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); } };
struct M28 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); } using serialize = zpp::bits::members<28>; };
struct S29 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); } };
struct M29 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); } using serialize = zpp::bits::members<29>; };
struct S30 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); } };
struct M30 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); } using serialize = zpp::bits::members<30>; };
struct S31 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); } };
struct M31 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); } using serialize = zpp::bits::members<31>; };
struct S32 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); } };
struct M32 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); } using serialize = zpp::bits::members<32>; };
struct S33 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); } };
struct M33 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); } using serialize = zpp::bits::members<33>; };
struct S34 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); } };
struct M34 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); } using serialize = zpp::bits::members<34>; };
struct S35 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); } };
struct M35 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); } using serialize = zpp::bits::members<35>; };
struct S36 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); } };
struct M36 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); } using serialize = zpp::bits::members<36>; };
struct S37 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); } };
struct M37 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); } using serialize = zpp::bits::members<37>; };
struct S38 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); } };
struct M38 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); } using serialize = zpp::bits::members<38>; };
struct S39 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; std::uint8_t m36; std::uint16_t m37; std::uint32_t m38; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); } };
struct M39 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; std::uint8_t m36; std::uint16_t m37; std::uint32_t m38; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); } using serialize = zpp::bits::members<39>; };
struct S40 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; std::uint32_t m37; std::uint8_t m38; std::uint16_t m39; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); } };
struct M40 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; std::uint32_t m37; std::uint8_t m38; std::uint16_t m39; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); } using serialize = zpp::bits::members<40>; };
struct S41 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; std::uint16_t m38; std::uint32_t m39; std::uint8_t m40; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); } };
struct M41 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; std::uint16_t m38; std::uint32_t m39; std::uint8_t m40; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); } using serialize = zpp::bits::members<41>; };
struct S42 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; std::uint8_t m36; std::uint16_t m37; std::uint32_t m38; std::uint8_t m39; std::uint16_t m40; std::uint32_t m41; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); } };
struct M42 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; std::uint8_t m36; std::uint16_t m37; std::uint32_t m38; std::uint8_t m39; std::uint16_t m40; std::uint32_t m41; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); } using serialize = zpp::bits::members<42>; };
struct S43 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; std::uint32_t m37; std::uint8_t m38; std::uint16_t m39; std::uint32_t m40; std::uint8_t m41; std::uint16_t m42; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); } };
struct M43 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; std::uint32_t m37; std::uint8_t m38; std::uint16_t m39; std::uint32_t m40; std::uint8_t m41; std::uint16_t m42; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); } using serialize = zpp::bits::members<43>; };
struct S44 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; std::uint16_t m38; std::uint32_t m39; std::uint8_t m40; std::uint16_t m41; std::uint32_t m42; std::uint8_t m43; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); } };
struct M44 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; std::uint16_t m38; std::uint32_t m39; std::uint8_t m40; std::uint16_t m41; std::uint32_t m42; std::uint8_t m43; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); } using serialize = zpp::bits::members<44>; };
struct S45 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; std::uint8_t m36; std::uint16_t m37; std::uint32_t m38; std::uint8_t m39; std::uint16_t m40; std::uint32_t m41; std::uint8_t m42; std::uint16_t m43; std::uint32_t m44; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); } };
struct M45 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; std::uint8_t m36; std::uint16_t m37; std::uint32_t m38; std::uint8_t m39; std::uint16_t m40; std::uint32_t m41; std::uint8_t m42; std::uint16_t m43; std::uint32_t m44; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); } using serialize = zpp::bits::members<45>; };
struct S46 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; std::uint32_t m37; std::uint8_t m38; std::uint16_t m39; std::uint32_t m40; std::uint8_t m41; std::uint16_t m42; std::uint32_t m43; std::uint8_t m44; std::uint16_t m45; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); } };
struct M46 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; std::uint32_t m37; std::uint8_t m38; std::uint16_t m39; std::uint32_t m40; std::uint8_t m41; std::uint16_t m42; std::uint32_t m43; std::uint8_t m44; std::uint16_t m45; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); } using serialize = zpp::bits::members<46>; };
struct S47 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; std::uint16_t m38; std::uint32_t m39; std::uint8_t m40; std::uint16_t m41; std::uint32_t m42; std::uint8_t m43; std::uint16_t m44; std::uint32_t m45; std::uint8_t m46; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); f(m46); } };
struct M47 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; std::uint16_t m38; std::uint32_t m39; std::uint8_t m40; std::uint16_t m41; std::uint32_t m42; std::uint8_t m43; std::uint16_t m44; std::uint32_t m45; std::uint8_t m46; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); f(m46); } using serialize = zpp::bits::members<47>; };
struct S48 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; std::uint8_t m36; std::uint16_t m37; std::uint32_t m38; std::uint8_t m39; std::uint16_t m40; std::uint32_t m41; std::uint8_t m42; std::uint16_t m43; std::uint32_t m44; std::uint8_t m45; std::uint16_t m46; std::uint32_t m47; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); f(m46); f(m47); } };
struct M48 { std::uint8_t m0; std::uint16_t m1; std::uint32_t m2; std::uint8_t m3; std::uint16_t m4; std::uint32_t m5; std::uint8_t m6; std::uint16_t m7; std::uint32_t m8; std::uint8_t m9; std::uint16_t m10; std::uint32_t m11; std::uint8_t m12; std::uint16_t m13; std::uint32_t m14; std::uint8_t m15; std::uint16_t m16; std::uint32_t m17; std::uint8_t m18; std::uint16_t m19; std::uint32_t m20; std::uint8_t m21; std::uint16_t m22; std::uint32_t m23; std::uint8_t m24; std::uint16_t m25; std::uint32_t m26; std::uint8_t m27; std::uint16_t m28; std::uint32_t m29; std::uint8_t m30; std::uint16_t m31; std::uint32_t m32; std::uint8_t m33; std::uint16_t m34; std::uint32_t m35; std::uint8_t m36; std::uint16_t m37; std::uint32_t m38; std::uint8_t m39; std::uint16_t m40; std::uint32_t m41; std::uint8_t m42; std::uint16_t m43; std::uint32_t m44; std::uint8_t m45; std::uint16_t m46; std::uint32_t m47; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); f(m46); f(m47); } using serialize = zpp::bits::members<48>; };
struct S49 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; std::uint32_t m37; std::uint8_t m38; std::uint16_t m39; std::uint32_t m40; std::uint8_t m41; std::uint16_t m42; std::uint32_t m43; std::uint8_t m44; std::uint16_t m45; std::uint32_t m46; std::uint8_t m47; std::uint16_t m48; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); f(m46); f(m47); f(m48); } };
struct M49 { std::uint16_t m0; std::uint32_t m1; std::uint8_t m2; std::uint16_t m3; std::uint32_t m4; std::uint8_t m5; std::uint16_t m6; std::uint32_t m7; std::uint8_t m8; std::uint16_t m9; std::uint32_t m10; std::uint8_t m11; std::uint16_t m12; std::uint32_t m13; std::uint8_t m14; std::uint16_t m15; std::uint32_t m16; std::uint8_t m17; std::uint16_t m18; std::uint32_t m19; std::uint8_t m20; std::uint16_t m21; std::uint32_t m22; std::uint8_t m23; std::uint16_t m24; std::uint32_t m25; std::uint8_t m26; std::uint16_t m27; std::uint32_t m28; std::uint8_t m29; std::uint16_t m30; std::uint32_t m31; std::uint8_t m32; std::uint16_t m33; std::uint32_t m34; std::uint8_t m35; std::uint16_t m36; std::uint32_t m37; std::uint8_t m38; std::uint16_t m39; std::uint32_t m40; std::uint8_t m41; std::uint16_t m42; std::uint32_t m43; std::uint8_t m44; std::uint16_t m45; std::uint32_t m46; std::uint8_t m47; std::uint16_t m48; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); f(m46); f(m47); f(m48); } using serialize = zpp::bits::members<49>; };
struct S50 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; std::uint16_t m38; std::uint32_t m39; std::uint8_t m40; std::uint16_t m41; std::uint32_t m42; std::uint8_t m43; std::uint16_t m44; std::uint32_t m45; std::uint8_t m46; std::uint16_t m47; std::uint32_t m48; std::uint8_t m49; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); f(m46); f(m47); f(m48); f(m49); } };
struct M50 { std::uint32_t m0; std::uint8_t m1; std::uint16_t m2; std::uint32_t m3; std::uint8_t m4; std::uint16_t m5; std::uint32_t m6; std::uint8_t m7; std::uint16_t m8; std::uint32_t m9; std::uint8_t m10; std::uint16_t m11; std::uint32_t m12; std::uint8_t m13; std::uint16_t m14; std::uint32_t m15; std::uint8_t m16; std::uint16_t m17; std::uint32_t m18; std::uint8_t m19; std::uint16_t m20; std::uint32_t m21; std::uint8_t m22; std::uint16_t m23; std::uint32_t m24; std::uint8_t m25; std::uint16_t m26; std::uint32_t m27; std::uint8_t m28; std::uint16_t m29; std::uint32_t m30; std::uint8_t m31; std::uint16_t m32; std::uint32_t m33; std::uint8_t m34; std::uint16_t m35; std::uint32_t m36; std::uint8_t m37; std::uint16_t m38; std::uint32_t m39; std::uint8_t m40; std::uint16_t m41; std::uint32_t m42; std::uint8_t m43; std::uint16_t m44; std::uint32_t m45; std::uint8_t m46; std::uint16_t m47; std::uint32_t m48; std::uint8_t m49; template <typename F> void each(F f) const { f(m0); f(m1); f(m2); f(m3); f(m4); f(m5); f(m6); f(m7); f(m8); f(m9); f(m10); f(m11); f(m12); f(m13); f(m14); f(m15); f(m16); f(m17); f(m18); f(m19); f(m20); f(m21); f(m22); f(m23); f(m24); f(m25); f(m26); f(m27); f(m28); f(m29); f(m30); f(m31); f(m32); f(m33); f(m34); f(m35); f(m36); f(m37); f(m38); f(m39); f(m40); f(m41); f(m42); f(m43); f(m44); f(m45); f(m46); f(m47); f(m48); f(m49); } using serialize = zpp::bits::members<50>; };
