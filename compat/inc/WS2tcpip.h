#pragma once
#include <winsock2.h>
#include <ws2tcpip.h>
/* defined by the Windows SDK's headers, absent from mingw-w64's */
static const struct in6_addr in6addr_linklocalprefix = { { { 0xFE, 0x80 } } };
