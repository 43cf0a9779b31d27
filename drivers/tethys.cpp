// driver TU: Tethys store, encoders, scheme
#include <cassert>
#include <cstring>
#include <iostream>
#include <sstream>
#include <atomic>
#include <sse/schemes/tethys/core_types.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
using namespace sse::tethys;
using K = tethys_core_key_type;
constexpr size_t PS = 4096;
using Enc = encoders::EncodeSeparateEncoder<K, index_type, PS>;
using Dec = encoders::EncodeSeparateDecoder<K, index_type, PS>;
template struct encoders::EncodeSeparateEncoder<K, index_type, PS>;
template struct encoders::EncodeSeparateDecoder<K, index_type, PS>;
template class encoders::EncryptEncoder<Enc, PS>;
template class encoders::DecryptDecoder<Dec, PS>;
template class sse::tethys::TethysStoreBuilder<PS, K, index_type, IdentityHasher, Enc>;
template class sse::tethys::TethysStore<PS, K, index_type, IdentityHasher, Dec>;
template class sse::tethys::TethysBuilder<PS, Enc>;
template class sse::tethys::TethysServer<tethys_server_store_type<PS>>;
template class sse::tethys::TethysClient<Dec>;
