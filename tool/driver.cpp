// Instantiates the header templates of the library so that their bodies are visible to the exporter.
#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/functions.h>)
#include <tomsolver/config.h>
#include <tomsolver/diff.h>
#include <tomsolver/error_type.h>
#include <tomsolver/functions.h>
#include <tomsolver/linear.h>
#include <tomsolver/mat.h>
#include <tomsolver/math_operator.h>
#include <tomsolver/node.h>
#include <tomsolver/nonlinear.h>
#include <tomsolver/parse.h>
#include <tomsolver/simplify.h>
#include <tomsolver/subs.h>
#include <tomsolver/symmat.h>
#include <tomsolver/vars_table.h>
#endif

using namespace tomsolver;

namespace verif_driver {
void Instantiate() {
    Node a = Var("a"), b = Var("b");
    const Node ca = Var("c");
#define BIN(op)                                                                                                        \
    (void)(a op b); (void)(a op std::move(b)); (void)(std::move(a) op b); (void)(std::move(a) op std::move(b));        \
    (void)(ca op ca); (void)(ca op std::move(b)); (void)(std::move(a) op ca); (void)(a op ca); (void)(ca op b);
#define CMP(op)                                                                                                        \
    a op b; a op std::move(b); a op ca;
    BIN(+) BIN(-) BIN(*) BIN(/) BIN(^)
    CMP(+=) CMP(-=) CMP(*=) CMP(/=) CMP(^=)
    (void)(+a); (void)(+std::move(a)); (void)(+ca);
    (void)(-a); (void)(-std::move(a)); (void)(-ca);
#define FUN(f) (void)f(a); (void)f(std::move(a)); (void)f(ca);
    FUN(tomsolver::sin) FUN(tomsolver::cos) FUN(tomsolver::tan) FUN(tomsolver::asin) FUN(tomsolver::acos)
    FUN(tomsolver::atan) FUN(tomsolver::sqrt) FUN(tomsolver::log) FUN(tomsolver::log2) FUN(tomsolver::log10)
    FUN(tomsolver::exp)
    (void)radians(1.0); (void)degrees(1.0);
}
} // namespace verif_driver
