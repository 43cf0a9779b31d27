#pragma once
#include <sse/crypto/key.hpp>
