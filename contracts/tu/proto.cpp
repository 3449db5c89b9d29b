#include "protobuf.cpp"
namespace vp{
struct OnVarint{ void operator()(uint64_t, uint64_t)const; };
struct OnDouble{ void operator()(uint64_t, double)const; };
struct OnString{ void operator()(uint64_t, const char*, const char*)const; };
}
namespace RoutingKit{
template void decode_protobuf_message_with_callbacks(const char*, const char*, const vp::OnVarint&, const vp::OnDouble&, const vp::OnString&);
}
