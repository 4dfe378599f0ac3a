// Contract language of the verification harness.
//
// The same contract file is read twice.  clang turns it (together with the
// /repo headers it includes) into LLVM IR from which the verification
// conditions are generated; there every vc_real/vc_int is a universally
// quantified variable.  g++ compiles it natively to replay a counterexample or
// to search for one; there vc_real/vc_int return concrete values.
#pragma once
#include <cstddef>
#include <cstring>
#include <stdexcept>
#include <cmath>

extern "C" {
    // universally quantified inputs; for vc_real the range is only a hint for the
    // native search, for vc_int the range lo..hi is part of the precondition
    double vc_real(const char* name, double lo, double hi);
    long   vc_int(const char* name, long lo, long hi);
    bool   vc_bool(const char* name);
    long   vc_choose(const char* name, long lo, long hi);   // complete case split
    long   vc_concretize(long x);                           // case split on a bounded value
    // requires / ensures
    void   vc_assume(bool c);
    void   vc_assert(const char* name, bool c);
    void   vc_assert_eq(const char* name, double a, double b);
    void   vc_assert_ieq(const char* name, long a, long b);
    void   vc_assert_le(const char* name, double a, double b);
    // lemma: asserted here, available to every later obligation
    void   vc_lemma(const char* name, bool c);
    void   vc_lemma_eq(const char* name, double a, double b);
    double vc_bind(const char* name, double v);             // a new name for v (v itself), to keep terms small
    // arbitrary (uninterpreted) functions
    double vc_uf(const char* name, int n, ...);             // of n long arguments
    long   vc_ufi(const char* name, int n, ...);
    double vc_ufr(const char* name, int n, ...);            // of n double arguments
    void   vc_cover(const char* name);
    void   vc_use_contract(const char* name);
    void   vc_use_hypothesis(const char* name);             // same, but only for recursive calls (induction hypothesis)
    void   vc_drop_contract(const char* name);
    void   vc_axiom(const char* name, bool c);
    void   vc_note(const char* name);
    // from here on, loops left after a number of iterations that depends on the
    // inputs are verified by an arbitrary iteration (see loop_cut in exe.py)
    void   vc_cut_loops();
    // branch conditions are reduced by field algebra before a path is split
    void   vc_simplify_branches();
    // inputs for which a denominator vanishes or a root is taken of a negative
    // number are outside this contract (recorded as an assumption)
    void   vc_assume_defined(const char* reason);
    void   vc_opaque_text();                                // to_string returns unspecified text
    void   vc_record(const char* name, double v);           // native only: corrected value of an input
}

#ifdef VC_NATIVE
struct vc_registrar { vc_registrar(const char*, void(*)()); };
#define VC_PROOF(NAME) \
    extern "C" void vc_proof_##NAME(); \
    static vc_registrar vc_reg_##NAME(#NAME, vc_proof_##NAME); \
    extern "C" void vc_proof_##NAME()
#define VC_CONTRACT(NAME, TARGET, STUB)
#else
#define VC_PROOF(NAME) \
    extern "C" __attribute__((used, noinline)) void vc_proof_##NAME()
template<typename F, typename G> struct vc_contract_entry { F target; G stub; const char* name; };
template<typename F, typename G> vc_contract_entry(F, G, const char*) -> vc_contract_entry<F, G>;
#define VC_CONTRACT(NAME, TARGET, STUB) \
    extern "C" { __attribute__((used)) extern const vc_contract_entry<decltype(TARGET), decltype(STUB)> vc_contract_##NAME; \
    const vc_contract_entry<decltype(TARGET), decltype(STUB)> vc_contract_##NAME = { TARGET, STUB, #NAME }; }
#endif
