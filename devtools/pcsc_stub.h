// minimal simulated PC/SC service for demonstrations; hooks can be replaced
#include <winscard.h>
#include <reader.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#ifndef CHECK
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); fflush(stdout); _Exit(1); } } while (0)
#endif
static unsigned stub_open, stub_contexts, stub_bad;
static uint8_t stub_atr[33] = { 0x3B, 0x60, 0x00, 0x00 };
static DWORD stub_atr_len = 4;
static LONG stub_status_result;
static unsigned stub_list_calls, stub_list_fail_at;
static DWORD stub_state = SCARD_STATE_PRESENT;
static LONG (*stub_control)(DWORD, unsigned char*, DWORD, DWORD*);
static size_t (*stub_card)(const uint8_t*, size_t, uint8_t*);
const SCARD_IO_REQUEST g_rgSCardT0Pci = { SCARD_PROTOCOL_T0, sizeof(SCARD_IO_REQUEST) };
const SCARD_IO_REQUEST g_rgSCardT1Pci = { SCARD_PROTOCOL_T1, sizeof(SCARD_IO_REQUEST) };
const char* pcsc_stringify_error(const LONG e) { (void)e; return "stub"; }
LONG SCardEstablishContext(DWORD s, LPCVOID a, LPCVOID b, LPSCARDCONTEXT c) { (void)s; (void)a; (void)b; *c = 77; ++stub_contexts; return SCARD_S_SUCCESS; }
LONG SCardReleaseContext(SCARDCONTEXT c) { (void)c; --stub_contexts; return SCARD_S_SUCCESS; }
LONG SCardListReaders(SCARDCONTEXT c, LPCSTR g, LPSTR r, LPDWORD n)
{
	static const char names[] = "Reader A\0";
	(void)c; (void)g;
	if (++stub_list_calls == stub_list_fail_at) { return SCARD_E_NO_READERS_AVAILABLE; }
	if (r) { memcpy(r, names, sizeof(names)); }
	*n = sizeof(names);
	return SCARD_S_SUCCESS;
}
LONG SCardConnect(SCARDCONTEXT c, LPCSTR r, DWORD share, DWORD p, LPSCARDHANDLE h, LPDWORD ap) { (void)c; (void)r; (void)share; (void)p; *h = 5; *ap = SCARD_PROTOCOL_T0; ++stub_open; return SCARD_S_SUCCESS; }
LONG SCardDisconnect(SCARDHANDLE h, DWORD d) { (void)h; (void)d; if (!stub_open) { ++stub_bad; } else { --stub_open; } return SCARD_S_SUCCESS; }
LONG SCardStatus(SCARDHANDLE h, LPSTR n, LPDWORD nl, LPDWORD st, LPDWORD pr, LPBYTE atr, LPDWORD al)
{
	(void)h; (void)n; (void)nl;
	if (stub_status_result) { return stub_status_result; }
	*st = 0; *pr = SCARD_PROTOCOL_T0;
	memcpy(atr, stub_atr, stub_atr_len); *al = stub_atr_len;
	return SCARD_S_SUCCESS;
}
LONG SCardControl(SCARDHANDLE h, DWORD code, LPCVOID sb, DWORD sl, LPVOID rb, DWORD rl, LPDWORD ret)
{
	(void)h; (void)sb; (void)sl;
	if (!stub_control) { return SCARD_E_UNSUPPORTED_FEATURE; }
	return stub_control(code, rb, rl, ret);
}
LONG SCardGetStatusChange(SCARDCONTEXT c, DWORD timeout, SCARD_READERSTATE* s, DWORD n)
{
	bool changed = false;
	(void)c;
	for (DWORD i = 0; i < n; ++i) {
		if (s[i].dwCurrentState & SCARD_STATE_IGNORE) { continue; }
		s[i].dwEventState = stub_state;
		if (s[i].dwCurrentState == SCARD_STATE_UNAWARE || (s[i].dwCurrentState & 0x7FE) != stub_state) { s[i].dwEventState |= SCARD_STATE_CHANGED; changed = true; }
	}
	if (changed) { return SCARD_S_SUCCESS; }
	if (timeout == INFINITE) { printf("FAILED: waits for ever\n"); fflush(stdout); _Exit(1); }
	return SCARD_E_TIMEOUT;
}
LONG SCardTransmit(SCARDHANDLE h, const SCARD_IO_REQUEST* p, LPCBYTE tx, DWORD tl, SCARD_IO_REQUEST* rp, LPBYTE rx, LPDWORD rl)
{
	uint8_t b[300];
	size_t n;
	(void)h; (void)p; (void)rp;
	if (!stub_card) { return SCARD_E_NO_SMARTCARD; }
	n = stub_card(tx, tl, b);
	if (!n || n > *rl) { return SCARD_E_NOT_TRANSACTED; }
	memcpy(rx, b, n); *rl = (DWORD)n;
	return SCARD_S_SUCCESS;
}
