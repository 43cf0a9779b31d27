// driver TU: Sophos
#include <list>
#include <thread>
#include <string>
#include <memory>
#include <iostream>
#include "sophos/sophos_common.cpp"
#include "sophos/sophos_client.cpp"
#include "sophos/sophos_server.cpp"
