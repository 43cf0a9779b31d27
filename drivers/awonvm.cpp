// driver TU: append-only vector, instantiated
#include <sse/schemes/abstractio/awonvm_vector.hpp>
#include <array>
namespace vdrv {
using A512 = std::array<uint8_t, 512>;
}
template class sse::abstractio::awonvm_vector<uint64_t>;
template class sse::abstractio::awonvm_vector<vdrv::A512, 512>;
