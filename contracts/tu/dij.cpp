#include <algorithm>
#include <routingkit/dijkstra.h>
namespace vd { struct GetWeight { unsigned operator()(unsigned arc, unsigned departure_time) const; }; }
template RoutingKit::Dijkstra::SettleResult RoutingKit::Dijkstra::settle<vd::GetWeight>(const vd::GetWeight&);
