// C08, first half: which programs exist. Every operation that builds a lazy object, in every operand position, for every
// value category and kind of operand: named operands and temporary lazy objects are accepted, temporary owners are not.
#include "lib.hpp"

#include <strictpp/Eigen/eigen.hpp>

namespace {
#ifndef C08_T
#define C08_T double
#endif
using T = C08_T;
constexpr bool FL = std::is_floating_point_v<T> || std::is_same_v<T, __float128>, BO = std::is_same_v<T, bool>, IN = std::is_integral_v<T> && !BO;

template <class X> X&& mk();   // never defined: only used unevaluated

// One operation with the operand under test at position x; l1/l2: named operands of the same type.
#define OP(N, EXPR) struct N { static constexpr const char* n = #EXPR; template <class X> static constexpr bool ok = requires(Array1D<T>& l1, Array2D<T>& l2, Array1D<int>& k1, Array2D<int>& k2, Array1D<double>& d1, Array2D<double>& d2, Strict<T> s) { EXPR; }; };
#define X_ mk<X>()
auto same_f = [](auto x) { return x; };
auto two_f = [](auto x, auto) { return x; };
auto red_f = [](const auto& a) { return a.un(0); };
auto pred_f = [](auto) { return StrictBool{true}; };

// element-wise, one operand, any rank
OP(oPos, +X_) OP(oNeg, -X_) OP(oInv, ~X_) OP(oNot, !X_) OP(oGen, spp::generate(X_, same_f)) OP(oAbs, abs(X_)) OP(oCast, array_cast<float>(X_)) OP(oExp, exp(X_)) OP(oLog, log(X_)) OP(oSqrt, sqrt(X_)) OP(oSin, sin(X_)) OP(oCos, cos(X_)) OP(oTan, tan(X_))
OP(oLog2, log2(X_)) OP(oLog10, log10(X_)) OP(oCbrt, cbrt(X_)) OP(oPow, pow(X_, s)) OP(oPowI, pow_int(X_, 2)) OP(oFPowI, fast_pow_int(X_, 2)) OP(oInverse, inv(X_))
#define BIN(N, O) OP(N##L, X_ O l1) OP(N##R, l1 O X_) OP(N##S, X_ O s) OP(N##Z, s O X_) OP(N##B, X_ O mk<X>()) OP(N##L2, X_ O l2) OP(N##R2, l2 O X_)
BIN(bAdd, +) BIN(bSub, -) BIN(bMul, *) BIN(bDiv, /) BIN(bMod, %) BIN(bShl, <<) BIN(bShr, >>) BIN(bAnd, &) BIN(bOr, |) BIN(bXor, ^) BIN(bLA, &&) BIN(bLO, ||)
#define BFN(N, F) OP(N##L, F(X_, l1)) OP(N##R, F(l1, X_)) OP(N##B, F(X_, mk<X>())) OP(N##L2, F(X_, l2)) OP(N##R2, F(l2, X_))
BFN(fTwo, two_prod)
OP(gL, spp::generate(X_, l1, two_f)) OP(gR, generate(l1, X_, two_f)) OP(gB, generate(X_, mk<X>(), two_f)) OP(gL2, generate(X_, l2, two_f)) OP(gR2, generate(l2, X_, two_f))
OP(ppL, pow_prod(X_, k1)) OP(ppL2, pow_prod(X_, k2)) OP(ppR, pow_prod(d1, X_)) OP(ppR2, pow_prod(d2, X_))
// structural
OP(mL, merge(X_, l1)) OP(mR, merge(l1, X_)) OP(mB, merge(X_, mk<X>())) OP(mS, merge(X_, s)) OP(mZ, merge(s, X_)) OP(mSS, merge(X_, s, s)) OP(mZZ, merge(s, s, X_)) OP(m3a, merge(X_, l1, l1)) OP(m3b, merge(l1, X_, l1)) OP(m3c, merge(l1, l1, X_))
OP(hL, merge_horizontal(X_, l2)) OP(hR, merge_horizontal(l2, X_)) OP(h3a, merge_horizontal(X_, l2, l2)) OP(h3b, merge_horizontal(l2, X_, l2)) OP(h3c, merge_horizontal(l2, l2, X_))
OP(vL, merge_vertical(X_, l2)) OP(vR, merge_vertical(l2, X_)) OP(v3a, merge_vertical(X_, l2, l2)) OP(v3b, merge_vertical(l2, X_, l2)) OP(v3c, merge_vertical(l2, l2, X_))
OP(ex1, exclude(X_, 0)) OP(ex2, exclude(X_, 0, 1)) OP(ex3, exclude(X_, Pos{0}, Count{1})) OP(ex4, exclude(X_, place::last)) OP(ex5, exclude(X_, place::last - 1))
OP(tr, transpose(X_)) OP(rr, row_reduce(X_, red_f)) OP(cr, col_reduce(X_, red_f)) OP(rb, row_broadcast(X_)) OP(cb, col_broadcast(X_))
OP(mvA, matvec_prod(X_, l1)) OP(mvB, matvec_prod(l2, X_)) OP(tpL, tensor_prod(X_, l1)) OP(tpR, tensor_prod(l1, X_)) OP(tpB, tensor_prod(X_, mk<X>()))
// slices and views of 1D objects
OP(sAll, X_(place::all)) OP(sEven, X_(place::even)) OP(sOdd, X_(place::odd)) OP(sRev, X_(place::reverse)) OP(sSkip, X_(place::skipN{1})) OP(sFirst, X_(place::firstN{1})) OP(sLast, X_(place::lastN{1})) OP(sSeqN, X_(seqN{0, 1})) OP(sSeq, X_(seq{0, 0})) OP(sVec, X_(std::vector<ImplicitInt>{0})) OP(sList, X_({0, 0})) OP(sCompl, X_(place::complement{0}))
OP(v2D, X_.view2D(1, 1))
OP(iOpen, in_open_range(X_, s, s)) OP(iClosed, in_closed_range(X_, s, s)) OP(iCond, in_cond_range(X_, pred_f)) OP(iOpenW, in_open_range(X_, Low{s}, High{s})) OP(iClosedW, in_closed_range(X_, Low{s}, High{s}))
// rows, columns, diagonals, blocks, slices and views of 2D objects
OP(w1D, X_.view1D()) OP(row, X_.row(0)) OP(rowL, X_.row(place::last)) OP(col, X_.col(0)) OP(colL, X_.col(place::last)) OP(diag, X_.diag()) OP(diagI, X_.diag(0)) OP(blk, X_.block(0, 0, 1, 1))
OP(rws, X_.rows({0, 0})) OP(rwsV, X_.rows(std::vector<ImplicitInt>{0})) OP(rwsS, X_.rows(place::all)) OP(cls, X_.cols({0, 0})) OP(clsV, X_.cols(std::vector<ImplicitInt>{0})) OP(clsS, X_.cols(place::all))
OP(c2All, X_(place::all, place::all)) OP(c2Rev, X_(place::reverse, place::even)) OP(c2Seq, X_(seqN{0, 1}, seq{0, 0})) OP(c2V1, X_(std::vector<ImplicitInt>{0}, place::all)) OP(c2V2, X_(place::all, std::vector<ImplicitInt>{0})) OP(c2V3, X_(std::vector<ImplicitInt>{0}, std::vector<ImplicitInt>{0}))
// iterators and raw access
OP(itB, X_.begin()) OP(itE, X_.end()) OP(itCB, X_.cbegin()) OP(itCE, X_.cend()) OP(itRB, X_.rbegin()) OP(itRE, X_.rend()) OP(itCRB, X_.crbegin()) OP(itCRE, X_.crend())
OP(rit, RowIt{X_}) OP(cit, ColIt{X_}) OP(dta, X_.data()) OP(bdta, X_.blas_data()) OP(emap, eigen::map(X_))

template <class X> std::string cat() {
   return std::string(std::is_const_v<std::remove_reference_t<X>> ? "const " : "") + (std::is_lvalue_reference_v<X> ? "named " : "temporary ");
}
// req: the operation exists for named operands of this kind (so absence is a failure too)
template <bool Owner, class O, class V> void one(const char* kind, bool owner, bool req, bool tmp) {
   auto probe = [&]<class X>() {
      const bool lv = std::is_lvalue_reference_v<X>, got = O::template ok<X>;
      mc::at("%s with %s%s", O::n, cat<X>().c_str(), kind); mc::step();
      if(got && !lv && owner) mc::fail(std::string("accepted:") + O::n + ":" + kind, "%s is accepted for a %s%s, which it would refer to after its end", O::n, cat<X>().c_str(), kind);
      if(!got && lv && req) mc::fail(std::string("refused:") + O::n + ":" + kind, "%s is refused for a %s%s", O::n, cat<X>().c_str(), kind);
      if(!got && !lv && !owner && req && tmp) mc::fail(std::string("refused:") + O::n + ":" + kind, "%s is refused for a %s%s", O::n, cat<X>().c_str(), kind);
      std::uint64_t h = got; for(const char* p = O::n; *p; ++p) h = mc::mix(h, *p); for(const char* p = kind; *p; ++p) h = mc::mix(h, *p); mc::state(mc::mix(h, lv * 2 + std::is_const_v<std::remove_reference_t<X>>));
   };
   probe.template operator()<V&>(); if constexpr(Owner) probe.template operator()<const V&>(); probe.template operator()<V>(); if constexpr(Owner) probe.template operator()<const V>();
   mc::trace();
}
template <class... O> struct Ls {};
template <class V, class... O> void run(Ls<O...>, const char* kind, bool owner, bool req, bool tmp = true) { (one<detail::ArrayType<V>, O, V>(kind, owner, req, tmp), ...); }

using U_num = Ls<oPos, oNeg, oGen, oAbs, oCast>;
using U_int = Ls<oInv>;
using U_bool = Ls<oNot, oGen, oCast>;
using U_fl = Ls<oExp, oLog, oSqrt, oSin, oCos, oTan, oLog2, oLog10, oCbrt, oPow, oPowI, oFPowI, oInverse>;
#define BL1(N) N##L, N##R, N##S, N##Z, N##B
#define BL2(N) N##L2, N##R2, N##S, N##Z, N##B
using B1_num = Ls<BL1(bAdd), BL1(bSub), BL1(bMul), BL1(bDiv), gL, gR, gB>;
using B2_num = Ls<BL2(bAdd), BL2(bSub), BL2(bMul), BL2(bDiv), gL2, gR2, gB>;
using B1_int = Ls<BL1(bMod), BL1(bShl), BL1(bShr), BL1(bAnd), BL1(bOr), BL1(bXor)>;
using B2_int = Ls<BL2(bMod), BL2(bShl), BL2(bShr), BL2(bAnd), BL2(bOr), BL2(bXor)>;
using B1_bool = Ls<BL1(bLA), BL1(bLO), BL1(bXor), gL, gR, gB>;
using B2_bool = Ls<BL2(bLA), BL2(bLO), BL2(bXor), gL2, gR2, gB>;
using B1_fl = Ls<fTwoL, fTwoR, fTwoB, ppL>;
using B2_fl = Ls<fTwoL2, fTwoR2, fTwoB, ppL2>;
using Mg1 = Ls<mL, mR, mB, mS, mZ, mSS, mZZ, m3a, m3b, m3c, ex1, ex2, ex3, ex4, ex5, rb, cb>;
using Mg1_num = Ls<mvB, tpL, tpR, tpB, iOpen, iClosed, iOpenW, iClosedW, iCond>;
using Mg2 = Ls<hL, hR, h3a, h3b, h3c, vL, vR, v3a, v3b, v3c, tr, rr, cr>;
using Mg2_num = Ls<mvA>;
using Sl1 = Ls<sAll, sEven, sOdd, sRev, sSkip, sFirst, sLast, sSeqN, sSeq, sVec, sList, sCompl, v2D>;
using Sl2 = Ls<w1D, row, rowL, col, colL, diag, diagI, blk, rws, rwsV, cls, clsV, c2All, c2Rev, c2Seq, c2V1, c2V2, c2V3, v2D>;
using It = Ls<itB, itE, itCB, itCE, itRB, itRE, itCRB, itCRE>;

template <class V> void go1(const char* kind, bool owner, bool mut = true) {
   if constexpr(BO) { run<V>(U_bool{}, kind, owner, true); run<V>(B1_bool{}, kind, owner, true); }
   else { run<V>(U_num{}, kind, owner, true); run<V>(B1_num{}, kind, owner, true); run<V>(Mg1_num{}, kind, owner, true); }
   if constexpr(IN) { run<V>(U_int{}, kind, owner, true); run<V>(B1_int{}, kind, owner, true); run<V>(Ls<ppR>{}, kind, owner, std::is_signed_v<T>); }
   if constexpr(FL) { run<V>(U_fl{}, kind, owner, true); run<V>(B1_fl{}, kind, owner, true); }
   // operations that do not exist for the element type today: must never start to accept temporary owners
   if constexpr(BO) { run<V>(U_num{}, kind, owner, false); run<V>(B1_num{}, kind, owner, false); run<V>(Mg1_num{}, kind, owner, false); }
   else { run<V>(U_bool{}, kind, owner, false); run<V>(B1_bool{}, kind, owner, false); }
   if constexpr(!IN) { run<V>(U_int{}, kind, owner, false); run<V>(B1_int{}, kind, owner, false); run<V>(Ls<ppR>{}, kind, owner, false); }
   if constexpr(!FL) { run<V>(U_fl{}, kind, owner, false); run<V>(B1_fl{}, kind, owner, false); }
   run<V>(Mg1{}, kind, owner, true); run<V>(Sl1{}, kind, owner, true);
   run<V>(It{}, kind, true, true);
   if(owner) run<V>(Ls<dta, bdta>{}, kind, true, true);
}
template <class V> void go2(const char* kind, bool owner) {
   if constexpr(BO) { run<V>(U_bool{}, kind, owner, true); run<V>(B2_bool{}, kind, owner, true); }
   else { run<V>(U_num{}, kind, owner, true); run<V>(B2_num{}, kind, owner, true); run<V>(Mg2_num{}, kind, owner, true); }
   if constexpr(IN) { run<V>(U_int{}, kind, owner, true); run<V>(B2_int{}, kind, owner, true); run<V>(Ls<ppR2>{}, kind, owner, std::is_signed_v<T>); }
   if constexpr(FL) { run<V>(U_fl{}, kind, owner, true); run<V>(B2_fl{}, kind, owner, true); }
   if constexpr(BO) { run<V>(U_num{}, kind, owner, false); run<V>(B2_num{}, kind, owner, false); run<V>(Mg2_num{}, kind, owner, false); }
   else { run<V>(U_bool{}, kind, owner, false); run<V>(B2_bool{}, kind, owner, false); }
   if constexpr(!IN) { run<V>(U_int{}, kind, owner, false); run<V>(B2_int{}, kind, owner, false); run<V>(Ls<ppR2>{}, kind, owner, false); }
   if constexpr(!FL) { run<V>(U_fl{}, kind, owner, false); run<V>(B2_fl{}, kind, owner, false); }
   run<V>(Mg2{}, kind, owner, true); run<V>(Sl2{}, kind, owner, true);
   run<V>(It{}, kind, true, true); run<V>(Ls<rit, cit>{}, kind, true, true, false);
   if(owner) run<V>(Ls<dta, bdta, emap>{}, kind, true, true);
}
template <class F> using R = decltype(std::declval<F>()());
#define KIND(N, ...) inline auto N = [](Array1D<T>& a, const Array1D<T>& ca, Array2D<T>& A, const Array2D<T>& cA, T* p) { return __VA_ARGS__; }; \
   using N##_t = decltype(N(std::declval<Array1D<T>&>(), std::declval<const Array1D<T>&>(), std::declval<Array2D<T>&>(), std::declval<const Array2D<T>&>(), (T*)nullptr));
KIND(k_slice, a(place::all)) KIND(k_cslice, ca(place::all)) KIND(k_vslice, a(std::vector<ImplicitInt>{0})) KIND(k_expr, spp::generate(a, same_f)) KIND(k_row, A.row(0)) KIND(k_ccol, cA.col(0)) KIND(k_view, A.view1D()) KIND(k_merge, merge(a, ca)) KIND(k_const, const1D<T>(3, Strict<T>{T(1)}))
KIND(k_block, A.block(0, 0, 1, 1)) KIND(k_cblock, cA(place::all, place::all)) KIND(k_vrows, A.rows(std::vector<ImplicitInt>{0})) KIND(k_expr2, spp::generate(A, same_f)) KIND(k_view2, a.view2D(1, 1)) KIND(k_tr, transpose(A)) KIND(k_const2, const2D<T>(1, 1, Strict<T>{T(1)}))

#if C08_PART == 0
UNIT("owners 1D") { go1<Array1D<T>>("Array1D", true); go1<Array1D<T, Aligned>>("aligned Array1D", true); }
#elif C08_PART == 1
UNIT("owners 2D") { go2<Array2D<T>>("Array2D", true); go2<Array2D<T, Aligned>>("aligned Array2D", true); }
#elif C08_PART == 2
UNIT("fixed owners") { go1<FixedArray1D<T, 3>>("FixedArray1D", true); go2<FixedArray2D<T, 2, 2>>("FixedArray2D", true); }
#elif C08_PART == 3
UNIT("lazies 1D") { go1<k_slice_t>("slice", false); go1<k_vslice_t>("index-vector slice", false); go1<k_expr_t>("expression", false); }
#elif C08_PART == 4
UNIT("lazies 1D") { go1<k_ccol_t>("column of const", false); go1<k_merge_t>("merge", false); go1<k_view_t>("1D view", false); }
#elif C08_PART == 5
UNIT("lazies 2D") { go2<k_block_t>("block", false); go2<k_vrows_t>("row set", false); go2<k_expr2_t>("2D expression", false); }
#elif C08_PART == 6
UNIT("lazies 2D") { go2<k_cblock_t>("2D slice of const", false); go2<k_view2_t>("2D view", false); go2<k_tr_t>("transpose", false); }
#endif
}  // namespace
