#include <ipaddress/ipaddress.hpp>
