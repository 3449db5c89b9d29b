#include <assert.h>
#include <routingkit/contraction_hierarchy.h>
namespace RoutingKit{
namespace vl{
// an arbitrary pure combination function
struct Link{ unsigned operator()(unsigned l, unsigned r)const; };
}
using EW = std::vector<unsigned>;
template unsigned ContractionHierarchyQuery::get_extra_weight_distance(const EW&, const vl::Link&);
template std::vector<unsigned> ContractionHierarchyQuery::get_extra_weight_distances_to_targets(const EW&, const vl::Link&);
template std::vector<unsigned> ContractionHierarchyQuery::get_extra_weight_distances_to_targets(const EW&, const vl::Link&, std::vector<unsigned>&);
template ContractionHierarchyQuery& ContractionHierarchyQuery::get_extra_weight_distances_to_targets(const EW&, const vl::Link&, std::vector<unsigned>&, std::vector<unsigned>&);
template std::vector<unsigned> ContractionHierarchyQuery::get_extra_weight_distances_to_sources(const EW&, const vl::Link&);
template std::vector<unsigned> ContractionHierarchyQuery::get_extra_weight_distances_to_sources(const EW&, const vl::Link&, std::vector<unsigned>&);
template ContractionHierarchyQuery& ContractionHierarchyQuery::get_extra_weight_distances_to_sources(const EW&, const vl::Link&, std::vector<unsigned>&, std::vector<unsigned>&);
}
