#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the 28 records stay uniform)."""
import json,os
I="include/ipaddress/"
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[ (I+f if not f.startswith(("src/","doc/","tests/")) else f) for f in files],
                   mechanism=[dict(name=n,where=w) for n,w in mech],
                   **(dict(observe_at=observe) if observe else {}), hook_needed=None)))

p("C01","Parsing any text never reads or writes outside its buffers",
  "Parsing an address or a network from any text, of any length, content and character type, reads only characters inside the given range, writes only inside its own objects, never uses an uninitialised value and executes no undefined operation (oversized shift, signed overflow, division by zero). It always terminates after a number of steps bounded by the text length.",
  ["inputs"],"every byte/character sequence of every length, for addresses, networks, scope ids and literals",
  "The tests parse a few hundred fixed strings; an out-of-bounds access needs a particular length/delimiter combination and usually leaves the result unchanged.",
  ["base-v4.hpp","base-v6.hpp","ip-network-base.hpp","fixed-string.hpp","unicode.hpp"],
  [("symbol/part counters guard the fixed buffers","base-v6.hpp split_parts/split_scope_id; ip-network-base.hpp parse_address_with_prefix"),("it < end before every decode","unicode.hpp next_char_or_error, utf_reader")],["value and error code of parse"])
p("C02","No operation on a constructed address or network has undefined behaviour",
  "For every address, network and iterator obtained from the public API with documented argument ranges, every query, conversion, comparison, formatting, swap, hash and network operation executes without out-of-bounds access, oversized shift, signed overflow, division by zero, use of an uninitialised value or a failed internal assertion. This includes the extreme prefix lengths (0 and the maximum) and the extreme addresses.",
  ["inputs"],"every address value, every prefix length 0..32 / 0..128, every operation",
  "Tests call each operation on a handful of typical values; shift-by-width and end-of-range defects show only at /0, /32, /128 or all-ones addresses and often happen to give a plausible value on x86.",
  ["base-v4.hpp","base-v6.hpp","ip-network-base.hpp","ip-network-iterator.hpp","ip-networks.hpp","uint128.hpp","byte-array.hpp"],
  [("two-step shifts for prefix masks","base-v4.hpp ip_from_prefix"),("limb-wise shifts","uint128.hpp operator<<, operator>>")])
p("C03","Every code-reporting call stores a definite error code",
  "Every function that reports through an error-code argument stores into it on every path: the success value exactly when the operation succeeded, a failure value otherwise. A stale value left in the variable by an earlier call never survives the call, whatever it was.",
  ["inputs","histories"],"every error-code overload, every input, every prior content of the code variable",
  "Tests start from a fresh variable that is already the success value, so a path that forgets to assign is invisible.",
  ["ip-network-base.hpp","ip-any-network.hpp","ip-any-address.hpp","ipv6-address.hpp","ip-address-base.hpp","fixed-string.hpp"],
  [("code = error_code::no_error at entry","each error_code& overload")])
p("C04","Throwing and code-reporting overloads agree; failures yield neutral results",
  "For the same input, the throwing overload fails exactly when the code-reporting overload stores a failure, with an exception of the documented type carrying the same code, and otherwise both return the same value. When the code-reporting overload stores a failure, the returned object is the default value of its type, an empty sequence, or, for a version-independent network built from an address, the default network of that address's version.",
  ["inputs"],"every input of every operation that has both forms",
  "Tests check each form on separate example lists; a divergence on an untested input or error path goes unnoticed.",
  ["ip-address-base.hpp","ip-network-base.hpp","ip-any-address.hpp","ip-any-network.hpp","ipv6-address.hpp","errors.hpp"],
  [("raise_error maps each code to parse_error/logic_error","errors.hpp"),("throwing form wraps the code form","ip-network-base.hpp, ip-any-network.hpp")])
p("C05","Functions that promise not to throw never throw or terminate",
  "A function declared non-throwing never lets an exception escape and never terminates the program because of one, for every argument. With exceptions disabled in the configuration, no operation of the library throws at all.",
  ["inputs","configurations"],"every non-throwing function, every argument; configurations with and without exceptions",
  "An exception inside a non-throwing function calls std::terminate; tests would need the one argument that reaches it.",
  ["ip-network-base.hpp","ip-any-network.hpp","ip-network-iterator.hpp","errors.hpp","config.hpp"],
  [("IPADDRESS_NOEXCEPT annotations","all headers"),("raise_error is a no-op without exceptions","errors.hpp")])
p("C06","IPv4 text is accepted exactly when it is a dotted quad",
  "A text parses as an IPv4 address exactly when it is four decimal octets 0..255 separated by single dots, without leading zeros, signs, blanks or any other character, and the resulting address consists of exactly those four octets in order. Every other text is rejected with the error that describes its first fault.",
  ["inputs"],"all texts",
  "Tests sample some accepted and some rejected strings; a boundary such as 256..259, a missing dot or a fourth digit can be mishandled at one octet only.",
  ["base-v4.hpp","ipv4-address.hpp"],[("octet state machine","base-v4.hpp ip_from_string")],["ipv4_address::parse"])
p("C07","IPv6 text is accepted exactly when it is valid, with the right value",
  "A text parses as an IPv6 address exactly when it is a valid textual form: up to eight groups of one to four hex digits, at most one '::' standing for one or more zero groups, an optional dotted-quad tail for the last two groups, and an optional scope suffix. The resulting sixteen bytes are the ones the text denotes, with upper and lower case hex equivalent; anything else is rejected.",
  ["inputs"],"all texts",
  "The combinations of group lengths, position and length of '::' and dotted tail are far more than the sampled strings.",
  ["base-v6.hpp","ipv6-address.hpp"],[("split_scope_id, split_parts, get_parts_bound, parse_parts","base-v6.hpp")],["ipv6_address::parse"])
p("C08","Network text: prefix, netmask and hostmask forms mean what they say",
  "A network text is an address optionally followed by one slash and a prefix length (decimal, at most the address width), or for IPv4 a contiguous netmask or hostmask; a missing part means a full-length prefix. It parses to the network with that prefix length; host bits are rejected in strict mode and cleared in non-strict mode, and every other text is rejected.",
  ["inputs"],"all network texts, strict and non-strict",
  "Tests list some prefixes and masks; a mask or prefix value at one width, a decimal overflow or host bits at one position are not covered.",
  ["base-v4.hpp","base-v6.hpp","ip-network-base.hpp"],[("parse_netmask, prefix_from_ip_uint32, strict_netmask","base-v4.hpp, base-v6.hpp"),("parse_address_with_prefix","ip-network-base.hpp")])
p("C09","All character types and entry points parse alike; non-ASCII never matches",
  "Parsing the same ASCII text through any character type (narrow, wide, UTF-8, UTF-16, UTF-32) and any entry point (view, array, literal, user-defined suffix) gives the same address, the same failure and the same error code. A text in which a non-ASCII or ill-formed code unit stands among the characters of the address is rejected and is never read as if it were ASCII (plain narrow text, which the documentation assumes to be ASCII unless UTF-8 narrow characters are configured, is only never read as a different ASCII text). Literals and character arrays end at their first terminating zero; one that is longer than any valid text may be rejected for its length.",
  ["inputs","configurations"],"every text, every character type, every entry point",
  "Tests repeat a few strings per type; truncation of a wide unit (e.g. U+0131) to an ASCII byte or an overlong encoding needs a specific unit.",
  ["unicode.hpp","fixed-string.hpp","ip-address-base.hpp","ipv4-address.hpp","ipv6-address.hpp"],
  [("next_char_or_error and utf_reader","unicode.hpp"),("string_converter","unicode.hpp/fixed-string.hpp")])
p("C10","Formatting is canonical in every format and round-trips",
  "Formatting an address gives, for every value, exactly the text of the requested format: dotted decimal for IPv4; for IPv6 lower-case groups, full (four digits), compact (no leading zeros) or compressed (the leftmost longest run of at least two zero groups becomes '::'), followed by the scope. Networks append '/' and the prefix length, reverse pointers follow the DNS nibble/octet order, and parsing the text gives back an equal object.",
  ["inputs"],"every address, every network, every format",
  "The position/length combinations of zero runs and digit counts exceed what the tests list.",
  ["base-v4.hpp","base-v6.hpp","ip-network-base.hpp","ip-address-base.hpp"],[("ip_to_chars, to_hex, byte_to_string, ip_reverse_pointer","base-v4.hpp, base-v6.hpp")])
p("C11","Bytes and integers convert in network order on every host",
  "An address built from bytes returns exactly those bytes, its integer value is the big-endian reading of its bytes, and building from that integer gives the same address, on little-endian and big-endian hosts alike. Converting from a raw byte range copies at most the address width and zero-fills the rest.",
  ["inputs","configurations"],"every address value, both byte orders, every byte count",
  "Tests run on one host and use a few values.",
  ["endian.hpp","base-v4.hpp","ipv6-address.hpp","ip-address-base.hpp","ip-any-address.hpp","uint128.hpp","byte-array.hpp"],[("swap_bytes/is_little_endian","endian.hpp"),("ip_to_uint32/ip_from_uint32","base-v4.hpp")])
p("C12","Ordering is total, numeric and consistent with equality everywhere",
  "Addresses compare as unsigned big-endian numbers (IPv6 then by scope; version-independent addresses by version first), networks by address and then mask; exactly one of less, equal, greater holds for every pair and all six operators agree with it. The result does not depend on whether the build has three-way comparison.",
  ["inputs","configurations"],"every pair of objects of every type; builds with and without three-way comparison",
  "Tests compare small lists of values; an order that looks only at some bytes, or a scope comparison that breaks antisymmetry, needs a specific pair.",
  ["byte-array.hpp","ip-address-base.hpp","ipv4-address.hpp","ipv6-address.hpp","fixed-string.hpp","ip-any-address.hpp","ip-network-base.hpp","ip-any-network.hpp"],[("compare/less/equals","ipv4-address.hpp, ipv6-address.hpp, byte-array.hpp, fixed-string.hpp")])
p("C13","Hash agrees with equality; copies and swaps carry the whole value",
  "Objects that compare equal have equal hashes, and the hash depends on every part of the value that equality looks at. Copying, assigning and swapping addresses and networks transfer the complete value, including version and scope, and leave nothing of the old one behind.",
  ["inputs","histories"],"every pair of values, every version/scope combination",
  "Tests use a few values of the same shape; a hash ignoring a byte or a swap losing the scope passes them.",
  ["hash.hpp","byte-array.hpp","ipv6-address.hpp","ip-any-address.hpp","ip-network-base.hpp","ip-any-network.hpp"],[("calc_hash","hash.hpp"),("swap","ip-address-base.hpp, ip-any-address.hpp, ip-network-base.hpp, ip-any-network.hpp")])
p("C14","Network mask, hostmask, broadcast and prefix are always consistent",
  "For every network, however it was created, the netmask has exactly prefix-length leading ones, the hostmask is its complement, the network address has no host bits, and the broadcast address is the network address with all host bits set. Creating a network from an address and prefix length succeeds exactly when the prefix is in range and, in strict mode, no host bit is set.",
  ["inputs"],"every address and every prefix length (including out-of-range ones), strict and non-strict",
  "Tests use several dozen networks; one prefix length or host-bit position can be wrong unnoticed.",
  ["ip-network-base.hpp","base-v4.hpp","base-v6.hpp"],[("ip_from_prefix, strict_netmask, from_address, hostmask, broadcast_address","base-v4.hpp, base-v6.hpp, ip-network-base.hpp")])
p("C15","Containment and overlap are exactly set inclusion and intersection",
  "An address is contained in a network exactly when its leading prefix bits equal the network's; a network is a subnet of another exactly when its address set is included in the other's, supernet-of is the converse, and two networks overlap exactly when their address sets intersect. Objects of different IP versions are never contained or overlapping.",
  ["inputs"],"every address/network pair and network/network pair",
  "Tests enumerate small lists; an off-by-one at a block boundary or a case of nesting in one direction only is not covered.",
  ["ip-network-base.hpp","ip-any-network.hpp"],[("contains, overlaps, is_subnet_of","ip-network-base.hpp")])
p("C16","Supernet and subnets return the right networks or the right error",
  "supernet gives the enclosing network whose prefix is shorter by the requested difference (or equal to the requested prefix), and subnets gives exactly the 2^d consecutive subnetworks of the requested length that partition the network. An impossible request, including arbitrarily large differences, fails with the documented error instead of giving a network.",
  ["inputs"],"every network, every prefix difference or new prefix, of any magnitude",
  "Tests use small differences on a few networks.",
  ["ip-network-base.hpp","ip-network-iterator.hpp","ip-networks.hpp"],[("supernet/subnets","ip-network-base.hpp"),("subnets_sequence","ip-networks.hpp")])
p("C17","Excluding a subnetwork partitions the rest exactly",
  "Excluding a network from a network that contains it yields networks that are pairwise disjoint, do not meet the excluded one, and together with it cover exactly the original network. Excluding a network from itself yields nothing, and excluding one that is not contained reports the documented error.",
  ["inputs"],"every pair of networks",
  "Tests exclude about a dozen pairs; the first or last block of the address space or a deep nesting behave specially.",
  ["ip-network-iterator.hpp","ip-networks.hpp","ip-network-base.hpp","ip-any-network.hpp"],[("ip_exclude_network_iterator","ip-network-iterator.hpp")])
p("C18","Host and subnet sequences obey the sequence laws and terminate",
  "Iterating the hosts or subnets of any network visits exactly the documented elements in order and then stops, also when the range ends at the top of the address space; backwards iteration visits the same elements reversed. Size, indexing, front/back, iterator difference and iterator arithmetic agree with that enumeration.",
  ["inputs","histories"],"every network; every sequence of increments, decrements and jumps",
  "Tests iterate small networks in the middle of the address space; the wrap at the all-ones address and arithmetic over more than 32/64 bits are not reached.",
  ["ip-address-iterator.hpp","ip-network-iterator.hpp","ip-networks.hpp","ip-any-iterator.hpp"],[("carry flag of the iterators","ip-address-iterator.hpp, ip-network-iterator.hpp"),("hosts_sequence, subnets_sequence","ip-networks.hpp")])
p("C19","Address classification matches the special-purpose registries",
  "Each classification query (multicast, private, global, reserved, loopback, link-local, site-local, unspecified) answers exactly according to the documented registry ranges for every address, and for a network exactly when the documented rule over the whole network holds. Version-independent objects give the answer of the object they hold.",
  ["inputs"],"every address and every network",
  "Tests probe a few addresses per range; a range bound wrong by one bit, or a missing exception range, is found only by the addresses next to it.",
  ["ipv4-address.hpp","ipv6-address.hpp","ipv4-network.hpp","ipv6-network.hpp","ip-any-address.hpp","ip-any-network.hpp","ip-network-base.hpp"],[("is_* range tables","ipv4-address.hpp, ipv6-address.hpp")])
p("C20","Embedded IPv4 addresses are extracted exactly when present",
  "The IPv4-mapped, 6to4 and Teredo queries return a value exactly for the addresses of the respective prefix, and the returned IPv4 addresses are exactly the embedded bits (complemented where the scheme says so). For every other address they return nothing.",
  ["inputs"],"every IPv6 address",
  "Tests probe a few positive and negative addresses; a check of only part of the prefix accepts addresses nobody tested.",
  ["ipv6-address.hpp"],[("ipv4_mapped, sixtofour, teredo","ipv6-address.hpp")])
p("C21","Version-independent types behave exactly like the type they hold",
  "An ip_address or ip_network gives, for every operation, exactly the result and error of the IPv4 or IPv6 object it holds; parsing picks IPv4 exactly when the text is valid IPv4, else IPv6. Conversions to the wrong version and operations mixing versions report the documented version error or the documented neutral answer.",
  ["inputs"],"every value of both versions, every operation",
  "Tests exercise each operation on a few values, usually one per version.",
  ["ip-any-address.hpp","ip-any-network.hpp","ip-any-iterator.hpp"],[("version dispatch","ip-any-address.hpp, ip-any-network.hpp, ip-any-iterator.hpp")])
p("C22","Scope ids are kept verbatim and never truncated",
  "A scope id of up to the configured length made of permitted characters is stored, returned, formatted, compared and copied verbatim; a longer one or one with a forbidden character is rejected and leaves no partial scope. Its numeric value is available exactly when the scope is a decimal number that fits.",
  ["inputs","configurations"],"every scope text, every configured maximum length",
  "Tests use short scopes in the default configuration.",
  ["base-v6.hpp","ipv6-address.hpp","fixed-string.hpp","ip-any-address.hpp"],[("split_scope_id","base-v6.hpp"),("scope, change_scope_id","ipv6-address.hpp")])
p("C23","128-bit integer operations are exact modulo 2^128",
  "Addition, subtraction, increment, negation, bitwise operations, shifts and comparisons of the 128-bit integer give the mathematically exact result modulo 2^128 for all operands, including carries between halves and every shift count below 128. Conversions from and to built-in integers keep the low bits exactly.",
  ["inputs"],"all operand pairs and shift counts",
  "Tests use sampled values; a carry lost at one half boundary or one shift count is not covered.",
  ["uint128.hpp"],[("limb-wise operators","uint128.hpp")])
p("C24","Stream insertion and extraction honour one-shot manipulators",
  "A format or strictness manipulator affects exactly the next inserted or extracted object and is then back at its default; the uppercase flag affects only the address digits, never the scope. Extraction of an invalid text sets the fail state and of a valid text does not.",
  ["histories"],"every sequence of manipulators and stream operations",
  "Tests apply one manipulator per stream.",
  ["ip-address-base.hpp","ip-network-base.hpp","ipv6-address.hpp","ip-any-address.hpp","ip-any-network.hpp"],[("iword slots","ip-address-base.hpp, ip-network-base.hpp, ip-any-network.hpp")])
p("C25","The library has no shared mutable state; queries do not modify",
  "Apart from allocating its stream slots once, no operation of the library writes memory that outlives the call other than the object it was asked to modify, so distinct objects may be used from distinct threads without synchronisation. A query or conversion never changes the object it is applied to.",
  ["schedules","programs"],"every operation, every thread interleaving of operations on distinct objects or queries on one object",
  "No test runs threads, and a hidden static cache gives right answers single-threaded.",
  ["ip-address-base.hpp","ip-network-base.hpp","errors.hpp","base-v6.hpp","uint128.hpp"],[("value types without globals","all headers")])
p("C26","Compile-time use and literal checking behave as documented",
  "Every operation documented as usable in constant expressions is, in each supported language level, and gives there the same result as at run time. An invalid compile-time literal makes the program ill-formed instead of giving an address, and the value types stay trivially copyable with the documented non-throwing guarantees.",
  ["programs","configurations"],"all programs using the compile-time interface, language levels 11 to 23",
  "A runtime test cannot observe that a program fails to compile, and the tests instantiate only some operations at compile time.",
  ["ip-address-base.hpp","ipv4-address.hpp","ipv6-address.hpp","ip-any-address.hpp","config.hpp"],[("IPADDRESS_CONSTEXPR/CONSTEVAL","config.hpp")])
p("C27","Configuration switches change only what they document",
  "Each documented configuration switch (no exceptions, no stream/std overloads, plain-char-is-UTF-8, scope length, scope spaces, namespace) compiles in every language level and leaves the values, comparisons and error codes of all other operations unchanged. With the scope length set to zero no scope is ever stored and every scope suffix is rejected.",
  ["configurations"],"every combination of switches and language levels",
  "The tests are built in four configurations only.",
  ["config.hpp","errors.hpp","unicode.hpp","ipv6-address.hpp","base-v6.hpp"],[("preprocessor switches","config.hpp")])
p("C28","The module exports the complete public interface",
  "A program that imports the module can use every public type, function and literal operator the headers provide, with the same behaviour. Nothing public is missing from the module.",
  ["programs"],"all programs using the module interface",
  "The module build compiles the tests' subset of names only.",
  ["ipaddress.hpp","src/ipaddress.ixx"],[("IPADDRESS_EXPORT","all headers; src/ipaddress.ixx")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
print(len(P))
