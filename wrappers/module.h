// A program that imports the module instead of including the headers; macros do not cross the import.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <limits>
#include <string>
#include <string_view>
#include <sstream>
#include <functional>
#include <iterator>
#include <algorithm>
#include <type_traits>
#include <utility>
#include <array>
#include <compare>
import ipaddress;
#ifndef IPADDRESS_NO_SPACESHIP_OPERATOR
#define IPADDRESS_HAS_SPACESHIP_OPERATOR
#endif
#define IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
#if __cplusplus > 202002L
#define IPADDRESS_CPP_VERSION 23
#else
#define IPADDRESS_CPP_VERSION 20
#endif
#ifdef IPADDRESS_NO_IPV6_SCOPE
#undef IPADDRESS_IPV6_SCOPE_MAX_LENGTH
#define IPADDRESS_IPV6_SCOPE_MAX_LENGTH 0
#endif
#ifndef IPADDRESS_IPV6_SCOPE_MAX_LENGTH
#define IPADDRESS_IPV6_SCOPE_MAX_LENGTH 16
#endif
