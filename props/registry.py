"""The documented special-purpose ranges, and the exact partition of the
address space they induce (the leaves of their prefix tree)."""
import ipaddress
Q = ['multicast', 'private', 'global', 'reserved', 'loopback', 'link_local', 'unspecified', 'site_local']
PRIV4 = '0.0.0.0/8 10.0.0.0/8 127.0.0.0/8 169.254.0.0/16 172.16.0.0/12 192.0.0.0/29 192.0.0.170/31 192.0.2.0/24 192.168.0.0/16 198.18.0.0/15 198.51.100.0/24 203.0.113.0/24 240.0.0.0/4 255.255.255.255/32'.split()
PRIV6 = '::1/128 ::/128 ::ffff:0:0/96 100::/64 2001::/23 2001:2::/48 2001:db8::/32 2001:10::/28 fc00::/7 fe80::/10'.split()
SHARED4 = ['100.64.0.0/10']
RES6 = '::/8 100::/8 200::/7 400::/6 800::/5 1000::/4 4000::/3 6000::/3 8000::/3 a000::/3 c000::/3 e000::/4 f000::/5 f800::/6 fe00::/9'.split()
R4 = dict(multicast=['224.0.0.0/4'], private=PRIV4, shared=SHARED4, reserved=['240.0.0.0/4'], loopback=['127.0.0.0/8'], link_local=['169.254.0.0/16'], unspecified=['0.0.0.0/32'], site_local=[])
R6 = dict(multicast=['ff00::/8'], private=PRIV6, shared=[], reserved=RES6, loopback=['::1/128'], link_local=['fe80::/10'], unspecified=['::/128'], site_local=['fec0::/10'],
          mapped=['::ffff:0:0/96'], sixtofour=['2002::/16'], teredo=['2001::/32'])


def bits(t):
    n = ipaddress.ip_network(t)
    return format(int(n.network_address), '0%db' % n.max_prefixlen)[:n.prefixlen]


B4 = {k: [bits(t) for t in v] for k, v in R4.items()}
B6 = {k: [bits(t) for t in v] for k, v in R6.items()}
MAP = bits('::ffff:0:0/96')


def tree(prefixes):
    """-> (inner nodes, leaves) of the prefix tree, as bit strings; the leaves partition the space"""
    inner = set()
    for p in prefixes:
        for i in range(len(p)):
            inner.add(p[:i])
    leaves = {n + b for n in inner for b in '01'} - inner
    if not inner:
        leaves = {''}
    return inner, leaves


def nodes(v):
    if v == 4:
        return tree({p for l in B4.values() for p in l})
    ps = {p for l in B6.values() for p in l} | {MAP + p for k in ('private', 'shared') for p in B4[k]}
    return tree(ps)


def under(s, table):
    """is the (whole) node s inside some prefix of the table"""
    return any(s.startswith(p) for p in table)


def addr_want(v, q, s):
    """answer for every address below the tree node s (long enough to decide)"""
    if v == 4:
        if q == 'global':
            return not under(s, B4['shared']) and not under(s, B4['private'])
        return under(s, B4[q])
    if q in ('private', 'global'):
        r = under(s[96:], B4['private']) if s.startswith(MAP) else under(s, B6['private'])
        return r if q == 'private' else not r
    return under(s, B6[q])


def net_want(v, q, s, p):
    """answer for the networks s/p where s has at least ... bits of the network and p is the prefix"""
    n = 32 if v == 4 else 128
    B = B4 if v == 4 else B6
    if q == 'private' or q == 'global':
        inone = lambda table: any(len(t) <= p and s.startswith(t) for t in table)
        r = inone(B['private'])
        return r if q == 'private' else (not r and not inone(B['shared']))
    if len(s) < p:
        lo = hi = s            # the rule does not change below s
    else:
        lo, hi = s[:p] + '0' * (n - p), s[:p] + '1' * (n - p)
    return under(lo, B[q]) and under(hi, B[q])
