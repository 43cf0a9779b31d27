// driver TU: RocksDB wrappers, instantiated
#include "utils/rocksdb_wrapper.cpp"

namespace vdrv {
struct Elem { uint64_t id; };
// serializer known only through its contract
struct Ser {
    std::string serialize(const Elem&);
    bool deserialize(std::string::iterator& begin, const std::string::iterator& end, Elem& out);
};
using A16 = std::array<uint8_t, 16>;
using A32 = std::array<uint8_t, 32>;
void use(sse::sophos::RockDBWrapper& w, const A16& k, uint64_t& v, A32& a, const uint8_t* p)
{
    w.put(k, v); w.put(k, a); w.get(k, v); w.get(k, a); w.get(p, (uint8_t)16, v); w.remove(k); w.remove(p, (uint8_t)16);
    std::string s; w.get(s, s);
}
}
template class sse::sophos::RockDBListStore<vdrv::Elem, vdrv::Ser>;
namespace vdrv {
void usel(sse::sophos::RockDBListStore<Elem, Ser>& w, const A16& k, std::list<Elem>& l, Ser& s)
{
    w.put(k, l, s); w.put(k, l); w.get(k, l, s); w.get(k, l);
}
}
