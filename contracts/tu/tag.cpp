#include <routingkit/tag_map.h>
namespace RoutingKit{
struct RkGetKey{ const char* operator()(unsigned) const; };
struct RkGetValue{ const char* operator()(unsigned) const; };
template void TagMap::build<RkGetKey, RkGetValue>(unsigned, const RkGetKey&, const RkGetValue&);
}
