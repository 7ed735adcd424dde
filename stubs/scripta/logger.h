// Stand-in for the scripta debug logger (not installed here): logs nothing.
#pragma once
#include <string>
namespace scripta {
template<class G> struct CellVDI { template<class N> CellVDI(N&&, G) {} };
template<class N, class G> CellVDI(N&&, G) -> CellVDI<G>;
template<class G> struct PointVDI { template<class N> PointVDI(N&&, G) {} };
template<class N, class G> PointVDI(N&&, G) -> PointVDI<G>;
struct StructureType_ {};
template<class... A> inline void log(A&&...) {}
template<class... A> inline void setAll(A&&...) {}
}
