// Instantiations used only by the analysis: members of the octree the library itself does not use.
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/trimmed_element.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/embedding/octree.h"
#include "queso/embedding/trimmed_domain.h"
namespace queso_inst {
using namespace queso;
using TE = TrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>;
void UseOctree(const Octree<TE>& t, const Vector3i& o) { (void)t.pGetIntegrationPoints<TE>(o); }
}
