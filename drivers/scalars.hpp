// Opaque scalar types for the drivers. Only declarations: their values are
// formal polynomials in the abstract interpreter.
//   SA op SA -> SA, SA op SB -> SC, SB op SA -> SC, SA op SD -> SA, SD op SA -> SA
//   SN: like SA but without compound assignment operators
//   SU: -SU -> SA
#pragma once
#include <libcommute/libcommute.hpp>
namespace lc = libcommute;
namespace vp {
struct SA;
struct SB;
struct SC;
struct SD;
struct SN;
struct SU;
#define VP_SCALAR(T) \
  struct T { \
    int tag; \
    T(); \
    T(T const&); \
    T(T&&) noexcept; \
    T& operator=(T const&); \
    T& operator=(T&&) noexcept; \
    ~T();
VP_SCALAR(SA)
SA(SB const&);
SA(SC const&);
SA(SD const&);
}
;
VP_SCALAR(SB)
SB(SA const&);
}
;
VP_SCALAR(SC)
SC(SA const&);
SC(SB const&);
}
;
VP_SCALAR(SD)
}
;
VP_SCALAR(SN)
}
;
VP_SCALAR(SU)
}
;
#define VP_BIN(L, R, Res) \
  Res operator+(L const&, R const&); \
  Res operator-(L const&, R const&); \
  Res operator*(L const&, R const&);
#define VP_CMP(L, R) \
  L& operator+=(L&, R const&); \
  L& operator-=(L&, R const&); \
  L& operator*=(L&, R const&);
VP_BIN(SA, SA, SA)
VP_BIN(SA, SB, SC)
VP_BIN(SB, SA, SC)
VP_BIN(SB, SB, SB)
VP_BIN(SA, SC, SC)
VP_BIN(SC, SA, SC)
VP_BIN(SB, SC, SC)
VP_BIN(SC, SB, SC)
VP_BIN(SC, SC, SC)
VP_BIN(SA, SD, SA)
VP_BIN(SD, SA, SA)
VP_BIN(SD, SD, SD)
VP_BIN(SN, SN, SN)
VP_BIN(SU, SU, SU)
VP_CMP(SA, SA)
VP_CMP(SA, SB)
VP_CMP(SA, SC)
VP_CMP(SA, SD)
VP_CMP(SB, SB)
VP_CMP(SC, SC)
VP_CMP(SC, SA)
VP_CMP(SC, SB)
SA operator-(SA const&);
SB operator-(SB const&);
SC operator-(SC const&);
SD operator-(SD const&);
SN operator-(SN const&);
SA operator-(SU const&);
#define VP_EQ(T) \
  bool operator==(T const&, T const&); \
  bool operator!=(T const&, T const&); \
  std::ostream& operator<<(std::ostream&, T const&);
VP_EQ(SA)
VP_EQ(SB)
VP_EQ(SC)
VP_EQ(SD)
VP_EQ(SN)
VP_EQ(SU)
} // namespace vp
namespace libcommute {
#define VP_TRAITS(T) \
  template <> struct scalar_traits<vp::T> { \
    static bool is_zero(vp::T const&); \
    static vp::T make_const(double); \
    static vp::T make_const(var_number const&); \
    static vp::T conj(vp::T const&); \
  };
VP_TRAITS(SA)
VP_TRAITS(SB)
VP_TRAITS(SC)
VP_TRAITS(SD)
VP_TRAITS(SN)
VP_TRAITS(SU)
} // namespace libcommute
