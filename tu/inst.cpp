// Instantiations used only by the analysis: the templates below have no other instantiation in the library's
// own translation units, or are wanted next to each other in one model.
#include "queso/embedded_model.h"
#include "queso/containers/grid_indexer.hpp"
#include "queso/containers/element_view.hpp"
#include "queso/utilities/mapping_utilities.hpp"
#include "queso/utilities/triangle_utilities.hpp"
#include "queso/utilities/polynomial_utilities.hpp"
#include "queso/utilities/mesh_utilities.h"
#include "queso/quadrature/single_element.hpp"
#include "queso/quadrature/multiple_elements.hpp"
#include "queso/quadrature/trimmed_element.hpp"
#include "queso/embedding/octree.h"
#include "queso/embedding/element_builders.hpp"
namespace queso {
template class UntrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>;
template class UntrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint>;
template class TrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint>;
template class BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
template class TrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>;
template class QuadratureSingleElement<UntrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>>;
template class QuadratureMultipleElements<UntrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>>;
template class QuadratureTrimmedElement<TrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>>;
namespace TriangleUtilities {
template double Area<WithNormals>(const TriangleProxy<WithNormals>&);
template double AspectRatio<WithNormals>(const TriangleProxy<WithNormals>&);
template Vector3d Normal<WithNormals>(const TriangleProxy<WithNormals>&);
template Vector3d Center<WithNormals>(const TriangleProxy<WithNormals>&);
template double AspectRatio<WithoutNormals>(const TriangleProxy<WithoutNormals>&);
template std::vector<BoundaryIntegrationPoint> GetIPsGlobal<BoundaryIntegrationPoint, WithNormals>(const TriangleProxy<WithNormals>&, IndexType);
}
template decltype(auto) ElementBase<IntegrationPoint, BoundaryIntegrationPoint, CellDomain, false>::GetIntegrationPoints<CoordinateSpace::global>() const;
template decltype(auto) ElementView<IntegrationPoint, BoundaryIntegrationPoint>::GetIntegrationPoints<CoordinateSpace::global>() const;
template class ElementView<IntegrationPoint, BoundaryIntegrationPoint>;
namespace mapping {
template IntegrationPoint ToParametric<IntegrationPoint>(const IntegrationPoint&, const ElementBounds&);
template IntegrationPoint ToGlobal<IntegrationPoint>(const IntegrationPoint&, const ElementBounds&);
template BoundaryIntegrationPoint ToParametric<BoundaryIntegrationPoint>(const BoundaryIntegrationPoint&, const ElementBounds&);
template BoundaryIntegrationPoint ToGlobal<BoundaryIntegrationPoint>(const BoundaryIntegrationPoint&, const ElementBounds&);
}
}
namespace queso_inst {
using namespace queso;
using Grid = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
void Use(Grid& g, const Grid& c, IndexType i, Grid::Direction d, TrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint>& t,
         UntrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint>& u, const ElementBounds& b) {
    (void)c.GetElementView<Grid::ElementFilter::all>(i); (void)c.GetElementView<Grid::ElementFilter::trimmed>(i); (void)c.GetElementView<Grid::ElementFilter::untrimmed>(i);
    (void)g.pGetElement<Grid::ElementFilter::trimmed>(i); (void)g.pGetElement<Grid::ElementFilter::untrimmed>(i);
    (void)c.GetElementViews<Grid::ElementFilter::all>(); (void)c.GetElementViews<Grid::ElementFilter::trimmed>(); (void)c.GetElementViews<Grid::ElementFilter::untrimmed>();
    (void)c.GetElements<Grid::ElementFilter::trimmed>(); (void)c.GetElements<Grid::ElementFilter::untrimmed>();
    (void)g.GetElements<Grid::ElementFilter::trimmed>(); (void)g.GetElements<Grid::ElementFilter::untrimmed>();
    (void)c.GetNextElementView<Grid::ElementFilter::all>(i, d); (void)c.GetNextElementView<Grid::ElementFilter::trimmed>(i, d); (void)c.GetNextElementView<Grid::ElementFilter::untrimmed>(i, d);
    (void)g.GetNextElement<Grid::ElementFilter::trimmed>(i, d); (void)g.GetNextElement<Grid::ElementFilter::untrimmed>(i, d);
    const auto v = c.GetElementView<Grid::ElementFilter::all>(i);
    (void)v->GetCellBounds<CoordinateSpace::global>(); (void)v->GetCellBounds<CoordinateSpace::parametric>();
    (void)v->GetIntegrationPoints<CoordinateSpace::global>(); (void)v->GetIntegrationPoints<CoordinateSpace::parametric>();
    (void)g.MakeElement(t, i, b); (void)g.MakeElement(u, i, b);
}
template <class E> void UseElement(const E& e, const PointType& p) {
    (void)e.template GetActiveDomainBounds<CoordinateSpace::global>(); (void)e.template GetActiveDomainBounds<CoordinateSpace::parametric>();
    (void)e.GetActiveDomainBoundaryMesh();
    (void)e.template GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::global>();
    (void)e.template GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::parametric>();
    (void)e.template IsInsideActiveDomain<CoordinateSpace::global>(p); (void)e.template IsInsideActiveDomain<CoordinateSpace::parametric>(p);
    (void)e.template GetIntersectionState<CoordinateSpace::global>(p, p, 0.0); (void)e.template GetIntersectionState<CoordinateSpace::parametric>(p, p, 0.0);
    (void)e.template GetIntegrationPoints<CoordinateSpace::global>();
}
void UseElements(const UntrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>& u, const TrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>& t, const PointType& p) {
    UseElement(u, p); UseElement(t, p);
}
struct ForeignMesh { std::vector<std::array<PointType, 3>> corners; };
TriangleMeshView ForeignView(const ForeignMesh& m) {
    return TriangleMeshView(m, [](const ForeignMesh& x) -> IndexType { return x.corners.size(); },
        [](const ForeignMesh& x, IndexType i) { return TriangleProxy<WithoutNormals>{ x.corners[i][0], x.corners[i][1], x.corners[i][2] }; });
}
std::vector<TriangleProxy<WithNormals>> ForeignRange(const TriangleMeshView& v) {
    std::vector<TriangleProxy<WithNormals>> out;
    for (const auto& t : v.Triangles<WithNormals>()) { out.push_back(t); }
    return out;
}
std::vector<TriangleProxy<WithNormals>> ForeignVisit(const TriangleMeshView& v) {
    std::vector<TriangleProxy<WithNormals>> out;
    v.VisitEachTriangle<WithNormals>([&out](const auto& t) { out.push_back(t); });
    return out;
}
std::vector<TriangleProxy<WithoutNormals>> ForeignVisitPlain(const TriangleMeshView& v) {
    std::vector<TriangleProxy<WithoutNormals>> out;
    v.VisitEachTriangle<WithoutNormals>([&out](const auto& t) { out.push_back(t); });
    return out;
}
std::vector<TriangleProxy<WithNormals>> ForeignSome(const TriangleMeshView& v, const std::vector<IndexType>& ids) {
    std::vector<TriangleProxy<WithNormals>> out;
    v.VisitEachTriangle<WithNormals>(ids, [&out](const auto& t) { out.push_back(t); });
    return out;
}
std::vector<TriangleProxy<WithNormals>> ForeignUntil(const TriangleMeshView& v, IndexType n) {
    std::vector<TriangleProxy<WithNormals>> out;
    v.VisitEachTriangle<WithNormals>([&](const auto& t) { out.push_back(t); return out.size() == n ? TriangleMeshView::VisitToken::stop_loop : TriangleMeshView::VisitToken::continue_loop; });
    return out;
}
}
