// driver TU: Pluto
#include <cassert>
#include <cstring>
#include <iostream>
#include <sstream>
#include <atomic>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
using namespace sse::pluto;
constexpr size_t PS = 4096;
using P = DefaultPlutoParams<PS>;
using R = RocksDBPlutoParams<PS>;
using Dec = sse::tethys::encoders::EncodeSeparateDecoder<sse::tethys::tethys_core_key_type, index_type, PS>;
template class sse::pluto::PlutoBuilder<P>;
template class sse::pluto::PlutoServer<P>;
template class sse::pluto::PlutoClient<Dec>;
template struct sse::pluto::PlutoValueSerializer<P>;
template class sse::pluto::RocksDBStoreBuilder<R::kPlutoListLength>;
