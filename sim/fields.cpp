#include "fields.hpp"
#include "apdu.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>

namespace fields {
namespace {
struct Row { uint64_t mask; const char* text; };
const Row AIP[] = {
	{ 0x8000ull, "Extended Data Authentication (XDA) is supported" },
	{ 0x4000ull, "Static Data Authentication (SDA) is supported" },
	{ 0x2000ull, "Dynamic Data Authentication (DDA) is supported" },
	{ 0x1000ull, "Cardholder verification is supported" },
	{ 0x0800ull, "Terminal risk management is to be performed" },
	{ 0x0400ull, "Issuer authentication is supported" },
	{ 0x0200ull, "On device cardholder verification is supported" },
	{ 0x0100ull, "Combined DDA/Application Cryptogram Generation (CDA) is supported" },
	{ 0x0080ull, "Contactless EMV mode is supported" },
	{ 0x0040ull, "Mobile phone" },
	{ 0x0020ull, "Contactless transaction" },
	{ 0x001Eull, "RFU" },
	{ 0x0001ull, "Relay Resistance Protocol (RRP) is supported" },
};
const Row TVR[] = {
	{ 0x8000000000ull, "Offline data authentication was not performed" },
	{ 0x4000000000ull, "Static Data Authentication (SDA) failed" },
	{ 0x2000000000ull, "Integrated circuit card (ICC) data missing" },
	{ 0x1000000000ull, "Card appears on terminal exception file" },
	{ 0x0800000000ull, "Dynamic Data Authentication (DDA) failed" },
	{ 0x0400000000ull, "Combined DDA/Application Cryptogram Generation (CDA) failed" },
	{ 0x0200000000ull, "Static Data Authentication (SDA) selected" },
	{ 0x0100000000ull, "Extended Data Authentication (XDA) selected" },
	{ 0x0080000000ull, "ICC and terminal have different application versions" },
	{ 0x0040000000ull, "Expired application" },
	{ 0x0020000000ull, "Application not yet effective" },
	{ 0x0010000000ull, "Requested service not allowed for card product" },
	{ 0x0008000000ull, "New card" },
	{ 0x0004000000ull, "RFU" },
	{ 0x0002000000ull, "Biometric performed and successful" },
	{ 0x0001000000ull, "Biometric template format not supported" },
	{ 0x0000800000ull, "Cardholder verification was not successful" },
	{ 0x0000400000ull, "Unrecognised CVM" },
	{ 0x0000200000ull, "PIN Try Limit exceeded" },
	{ 0x0000100000ull, "PIN entry required and PIN pad not present or not working" },
	{ 0x0000080000ull, "PIN entry required, PIN pad present, but PIN was not entered" },
	{ 0x0000040000ull, "Online CVM captured" },
	{ 0x0000020000ull, "Biometric required but Biometric capture device not working" },
	{ 0x0000010000ull, "Biometric required, Biometric capture device present, but Biometric Subtype entry was bypassed" },
	{ 0x0000008000ull, "Transaction exceeds floor limit" },
	{ 0x0000004000ull, "Lower consecutive offline limit exceeded" },
	{ 0x0000002000ull, "Upper consecutive offline limit exceeded" },
	{ 0x0000001000ull, "Transaction selected randomly for online processing" },
	{ 0x0000000800ull, "Merchant forced transaction online" },
	{ 0x0000000400ull, "Biometric Try Limit exceeded" },
	{ 0x0000000200ull, "A selected Biometric Type not supported" },
	{ 0x0000000100ull, "XDA signature verification failed" },
	{ 0x0000000080ull, "Default TDOL used" },
	{ 0x0000000040ull, "Issuer authentication failed" },
	{ 0x0000000020ull, "Script processing failed before final GENERATE AC" },
	{ 0x0000000010ull, "Script processing failed after final GENERATE AC" },
	{ 0x0000000009ull, "Reserved for use by the EMV Contactless Specifications" },
	{ 0x0000000004ull, "CA ECC key missing" },
	{ 0x0000000002ull, "ECC key recovery failed" },
};
const Row TSI[] = {
	{ 0x8000ull, "Offline data authentication was performed" },
	{ 0x4000ull, "Cardholder verification was performed" },
	{ 0x2000ull, "Card risk management was performed" },
	{ 0x1000ull, "Issuer authentication was performed" },
	{ 0x0800ull, "Terminal risk management was performed" },
	{ 0x0400ull, "Script processing was performed" },
	{ 0x03FFull, "RFU" },
};
const Row AUC[] = {
	{ 0x8000ull, "Valid for domestic cash transactions" },
	{ 0x4000ull, "Valid for international cash transactions" },
	{ 0x2000ull, "Valid for domestic goods" },
	{ 0x1000ull, "Valid for international goods" },
	{ 0x0800ull, "Valid for domestic services" },
	{ 0x0400ull, "Valid for international services" },
	{ 0x0200ull, "Valid at ATMs" },
	{ 0x0100ull, "Valid at terminals other than ATMs" },
	{ 0x0080ull, "Domestic cashback allowed" },
	{ 0x0040ull, "International cashback allowed" },
	{ 0x003Full, "RFU" },
};
const Row CAPS[] = {
	{ 0x800000ull, "Card Data Input Capability: Manual key entry" },
	{ 0x400000ull, "Card Data Input Capability: Magnetic stripe" },
	{ 0x200000ull, "Card Data Input Capability: IC with contacts" },
	{ 0x1F0000ull, "Card Data Input Capability: RFU" },
	{ 0x008000ull, "CVM Capability: Plaintext PIN for ICC verification" },
	{ 0x004000ull, "CVM Capability: Enciphered PIN for online verification" },
	{ 0x002000ull, "CVM Capability: Signature" },
	{ 0x001000ull, "CVM Capability: Enciphered PIN for offline verification (RSA ODE)" },
	{ 0x000800ull, "CVM Capability: No CVM required" },
	{ 0x000400ull, "CVM Capability: Online Biometric" },
	{ 0x000200ull, "CVM Capability: Offline Biometric" },
	{ 0x000100ull, "CVM Capability: Enciphered PIN for offline verification (ECC ODE)" },
	{ 0x000080ull, "Security Capability: Static Data Authentication (SDA)" },
	{ 0x000040ull, "Security Capability: Dynamic Data Authentication (DDA)" },
	{ 0x000020ull, "Security Capability: Card capture" },
	{ 0x000013ull, "Security Capability: RFU" },
	{ 0x000008ull, "Security Capability: Combined DDA/Application Cryptogram Generation (CDA)" },
	{ 0x000004ull, "Security Capability: Extended Data Authentication (XDA)" },
};
const Row MORE[] = {
	{ 0x8000000000ull, "Transaction Type Capability: Cash" },
	{ 0x4000000000ull, "Transaction Type Capability: Goods" },
	{ 0x2000000000ull, "Transaction Type Capability: Services" },
	{ 0x1000000000ull, "Transaction Type Capability: Cashback" },
	{ 0x0800000000ull, "Transaction Type Capability: Inquiry" },
	{ 0x0400000000ull, "Transaction Type Capability: Transfer" },
	{ 0x0200000000ull, "Transaction Type Capability: Payment" },
	{ 0x0100000000ull, "Transaction Type Capability: Administrative" },
	{ 0x0080000000ull, "Transaction Type Capability: Cash deposit" },
	{ 0x007F000000ull, "Transaction Type Capability: RFU" },
	{ 0x0000800000ull, "Terminal Data Input Capability: Numeric keys" },
	{ 0x0000400000ull, "Terminal Data Input Capability: Alphabetic and special characters keys" },
	{ 0x0000200000ull, "Terminal Data Input Capability: Command keys" },
	{ 0x0000100000ull, "Terminal Data Input Capability: Function keys" },
	{ 0x00000F0000ull, "Terminal Data Input Capability: RFU" },
	{ 0x0000008000ull, "Terminal Data Output Capability: Print or electronic, attendant" },
	{ 0x0000004000ull, "Terminal Data Output Capability: Print or electronic, cardholder" },
	{ 0x0000002000ull, "Terminal Data Output Capability: Display, attendant" },
	{ 0x0000001000ull, "Terminal Data Output Capability: Display cardholder" },
	{ 0x0000000C00ull, "Terminal Data Output Capability: RFU" },
	{ 0x0000000200ull, "Terminal Data Output Capability: Code table 10" },
	{ 0x0000000100ull, "Terminal Data Output Capability: Code table 9" },
	{ 0x0000000080ull, "Terminal Data Output Capability: Code table 8" },
	{ 0x0000000040ull, "Terminal Data Output Capability: Code table 7" },
	{ 0x0000000020ull, "Terminal Data Output Capability: Code table 6" },
	{ 0x0000000010ull, "Terminal Data Output Capability: Code table 5" },
	{ 0x0000000008ull, "Terminal Data Output Capability: Code table 4" },
	{ 0x0000000004ull, "Terminal Data Output Capability: Code table 3" },
	{ 0x0000000002ull, "Terminal Data Output Capability: Code table 2" },
	{ 0x0000000001ull, "Terminal Data Output Capability: Code table 1" },
};
const Row TRM[] = {
	{ 0x8000000000000000ull, "Restart supported" },
	{ 0x4000000000000000ull, "Enciphered PIN verified online (Contactless)" },
	{ 0x2000000000000000ull, "Signature (paper) (Contactless)" },
	{ 0x1000000000000000ull, "Enciphered PIN verification performed by ICC (Contactless)" },
	{ 0x0800000000000000ull, "No CVM required (Contactless)" },
	{ 0x0400000000000000ull, "CDCVM (Contactless)" },
	{ 0x0200000000000000ull, "Plaintext PIN verification performed by ICC (Contactless)" },
	{ 0x0100000000000000ull, "Present and Hold supported" },
	{ 0x0080000000000000ull, "CVM Limit exceeded" },
	{ 0x0040000000000000ull, "Enciphered PIN verified online (Contact)" },
	{ 0x0020000000000000ull, "Signature (paper) (Contact)" },
	{ 0x0010000000000000ull, "Enciphered PIN verification performed by ICC (Contact)" },
	{ 0x0008000000000000ull, "No CVM required (Contact)" },
	{ 0x0004000000000000ull, "CDCVM (Contact)" },
	{ 0x0002000000000000ull, "Plaintext PIN verification performed by ICC (Contact)" },
	{ 0x00011F3FFFFFFFFFull, "RFU" },
	{ 0x0000800000000000ull, "Mag-stripe mode contactless transactions not supported" },
	{ 0x0000400000000000ull, "EMV mode contactless transactions not supported" },
	{ 0x0000200000000000ull, "CDCVM without CDA supported" },
	{ 0x0000008000000000ull, "CDCVM bypass requested" },
	{ 0x0000004000000000ull, "SCA exempt" },
};

const Row CTQ[] = {
	{ 0x8000ull, "Online PIN Required" },
	{ 0x4000ull, "Signature Required" },
	{ 0x2000ull, "Go Online if Offline Data Authentication Fails and Reader is online capable" },
	{ 0x1000ull, "Switch Interface if Offline Data Authentication fails and Reader supports contact chip" },
	{ 0x0800ull, "Go Online if Application Expired" },
	{ 0x0400ull, "Switch Interface for Cash Transactions" },
	{ 0x0200ull, "Switch Interface for Cashback Transactions" },
	{ 0x0100ull, "Not valid for contactless ATM transactions" },
	{ 0x0080ull, "Consumer Device CVM Performed" },
	{ 0x0040ull, "Card supports Issuer Update Processing at the POS" },
	{ 0x003Full, "RFU" },
};
const struct { uint32_t mask; const char* on; const char* off; } TTQ[] = {
	{ 0x80000000u, "Mag-stripe mode supported", "Mag-stripe mode not supported" },
	{ 0x40000000u, "RFU", nullptr },
	{ 0x20000000u, "EMV mode supported", "EMV mode not supported" },
	{ 0x10000000u, "EMV contact chip supported", "EMV contact chip not supported" },
	{ 0x08000000u, "Offline-only reader", "Online capable reader" },
	{ 0x04000000u, "Online PIN supported", "Online PIN not supported" },
	{ 0x02000000u, "Signature supported", "Signature not supported" },
	{ 0x01000000u, "Offline Data Authentication for Online Authorizations supported", "Offline Data Authentication for Online Authorizations not supported" },
	{ 0x00800000u, "Online cryptogram required", "Online cryptogram not required" },
	{ 0x00400000u, "CVM required", "CVM not required" },
	{ 0x00200000u, "(Contact Chip) Offline PIN supported", "(Contact Chip) Offline PIN not supported" },
	{ 0x001F0000u, "RFU", nullptr },
	{ 0x00008000u, "Issuer Update Processing supported", "Issuer Update Processing not supported" },
	{ 0x00004000u, "Consumer Device CVM supported", "Consumer Device CVM not supported" },
	{ 0x00000800u, "Consumer Device CVM required", nullptr },
	{ 0x00003700u, "RFU", nullptr },
	{ 0x00000080u, "fDDA v1.0 Supported", nullptr },
	{ 0x0000007Fu, "RFU", nullptr },
};
const Row AMEX[] = {
	{ 0x80000000ull, "Contact mode supported" },
	{ 0x40000000ull, "Contactless Mag-Stripe Mode supported" },
	{ 0x20000000ull, "Contactless EMV full online mode supported (legacy feature and no longer supported)" },
	{ 0x10000000ull, "Contactless EMV partial online mode supported" },
	{ 0x08000000ull, "Contactless Mobile Supported" },
	{ 0x04000000ull, "Try Another Interface after a decline" },
	{ 0x03000000ull, "RFU" },
	{ 0x00800000ull, "Mobile CVM supported" },
	{ 0x00400000ull, "Online PIN supported" },
	{ 0x00200000ull, "Signature supported" },
	{ 0x00100000ull, "Plaintext Offline PIN supported" },
	{ 0x000F0000ull, "RFU" },
	{ 0x00008000ull, "Reader is offline only" },
	{ 0x00004000ull, "CVM Required" },
	{ 0x00003F00ull, "RFU" },
	{ 0x00000080ull, "Terminal exempt from No CVM checks" },
	{ 0x00000040ull, "Delayed Authorisation Terminal" },
	{ 0x00000020ull, "Transit Terminal" },
	{ 0x00000018ull, "RFU" },
};
const Row VISA[] = {
	{ 0x800000ull, "Consumer Payment Device Features: Passcode Capable" },
	{ 0x400000ull, "Consumer Payment Device Features: Signature Panel" },
	{ 0x200000ull, "Consumer Payment Device Features: Hologram" },
	{ 0x100000ull, "Consumer Payment Device Features: CVV2" },
	{ 0x080000ull, "Consumer Payment Device Features: Two-way Messaging" },
	{ 0x040000ull, "Consumer Payment Device Features: Cloud Based Payment Credentials" },
	{ 0x020000ull, "Consumer Payment Device Features: Biometric Cardholder Verification Capable" },
	{ 0x010000ull, "Consumer Payment Device Features: RFU" },
	{ 0x00FF00ull, "Form Factor Indicator (FFI) byte 3: RFU" },
	{ 0x0000F0ull, "Payment Transaction Technology: RFU" },
};

enum { A, AN, SP, CCS, CN, N, B, DATE, TIME };
const struct { uint32_t tag; int f; unsigned max; } PLAIN[] = {
	{ 0x42, N, 6 }, { 0x50, SP, 16 }, { 0x56, CCS, 76 }, { 0x5A, CN, 19 }, { 0x89, CCS, 6 }, { 0x9A, DATE, 0 }, { 0x5F24, DATE, 0 }, { 0x5F25, DATE, 0 }, { 0x9F21, TIME, 0 },
	{ 0x5F20, CCS, 26 }, { 0x5F50, CCS, 0 }, { 0x5F53, AN, 34 }, { 0x5F54, AN, 11 }, { 0x9F01, N, 11 }, { 0x9F02, N, 12 }, { 0x9F03, N, 12 }, { 0x81, B, 0 }, { 0x9F04, B, 0 }, { 0x9F1B, B, 0 }, { 0x9F3A, B, 0 },
	{ 0x9F0B, CCS, 45 }, { 0x9F0C, N, 8 }, { 0x9F16, CCS, 15 }, { 0x9F1C, AN, 8 }, { 0x9F1E, AN, 8 }, { 0x9F1F, CCS, 0 }, { 0x9F20, CN, 0 }, { 0x9F24, AN, 29 }, { 0x9F41, N, 8 }, { 0x9F4E, CCS, 0 }, { 0x5F30, N, 3 },
};

Known plain(int f, unsigned max, const Bytes& v, std::string& s)
{
	if (v.empty()) { return OPEN; }
	if (f <= CCS) {
		if (max && v.size() > max) { return REFUSED; }
		for (uint8_t c : v) {
			bool dig = c >= '0' && c <= '9', al = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
			if (f == CCS && c == 0x7F) { return OPEN; }
			if (!(al || (f >= AN && dig) || (f == SP && c == ' ') || (f == CCS && c >= 0x20 && c < 0x7F))) { return REFUSED; }
			s += (char)c;
		}
		return TEXT;
	}
	if (f == B) {
		if (v.size() > 4) { return REFUSED; }
		uint32_t x = 0;
		for (uint8_t c : v) { x = x << 8 | c; }
		s = std::to_string(x);
		return v.size() == 4 ? TEXT : OPEN;
	}
	std::string d;
	bool end = false;
	if (max && v.size() > (max + 1) / 2) { return REFUSED; }
	for (size_t i = 0; i < v.size() * 2; ++i) {
		unsigned x = i & 1 ? v[i / 2] & 15 : v[i / 2] >> 4;
		if (x == 15 && f == CN) { end = true; }
		if (end) { if (x != 15) { return OPEN; } continue; }
		if (x > 9) { return REFUSED; }
		d += (char)('0' + x);
	}
	if (f == CN) { s = d; return TEXT; }
	if (f == DATE || f == TIME) {
		if (d.size() != 6) { return REFUSED; }
		const char* sep = f == DATE ? "-" : ":";
		s = (f == DATE ? "20" : "") + d.substr(0, 2) + sep + d.substr(2, 2) + sep + d.substr(4, 2);
		return TEXT;
	}
	size_t z = d.find_first_not_of('0');
	s = z == std::string::npos ? "0" : d.substr(z);
	return TEXT;
}

uint64_t number(const Bytes& v) { uint64_t x = 0; for (uint8_t c : v) { x = x << 8 | c; } return x; }
void flags(const Row* r, size_t n, uint64_t x, std::vector<std::string>& lines) { for (size_t i = 0; i < n; ++i) { if (x & r[i].mask) { lines.push_back(r[i].text); } } }
#define FLAGS(t, len) if (v.size() != len) { return REFUSED; } flags(t, sizeof(t) / sizeof(t[0]), number(v), lines)

std::string method(uint8_t c)
{
	static const char* const M[] = { "Fail CVM processing", "Plaintext PIN verification performed by ICC", "Enciphered PIN verified online", "Plaintext PIN verification performed by ICC and signature", "Enciphered PIN verification performed by ICC",
		"Enciphered PIN verification performed by ICC and signature" };
	static const char* const BIO[] = { "Facial", "Finger", "Palm", "Iris", "Voice" };
	c &= 0x3F;
	if (c < 6) { return M[c]; }
	if (c < 16) { return std::string(BIO[(c - 6) / 2]) + " biometric verified " + (c & 1 ? "online" : "offline (by ICC)"); }
	return c == 0x1E ? "Signature (paper)" : c == 0x1F ? "No CVM required" : c == 0x3F ? "Invalid CV Rule" : "Unknown CVM";
}
std::string condition(uint8_t c, const std::string& X, const std::string& Y)
{
	static const char* const C[] = { "Always", "If unattended cash", "If not unattended cash and not manual cash and not purchase with cashback", "If terminal supports the CVM", "If manual cash", "If purchase with cashback" };
	if (c < 6) { return C[c]; }
	if (c > 9) { return "Unknown condition"; }
	return "If transaction is in the application currency and is " + std::string(c & 1 ? "over " : "under ") + (c < 8 ? X : Y) + " value";
}
// issuer application data
const char* const CCD_BITS[] = { // card verification results byte 1 bit 8 first; nullptr: no text
	nullptr, nullptr, nullptr, nullptr, "Combined DDA/Application Cryptogram Generation (CDA) Performed", "Offline Dynamic Data Authentication (DDA) Performed", "Issuer Authentication Not Performed", "Issuer Authentication Failed",
	nullptr, nullptr, nullptr, nullptr, "Offline PIN Verification Performed", "Offline PIN Verification Performed and PIN Not Successfully Verified", "PIN Try Limit Exceeded", "Last Online Transaction Not Completed",
	"Lower Offline Transaction Count Limit Exceeded", "Upper Offline Transaction Count Limit Exceeded", "Lower Cumulative Offline Amount Limit Exceeded", "Upper Cumulative Offline Amount Limit Exceeded",
	"Issuer-discretionary bit 1", "Issuer-discretionary bit 2", "Issuer-discretionary bit 3", "Issuer-discretionary bit 4",
	nullptr, nullptr, nullptr, nullptr, "Issuer Script Processing Failed", "Offline Data Authentication Failed on Previous Transaction", "Go Online on Next Transaction Was Set", "Unable to go Online",
};
const char* const MCHIP_BITS[] = {
	nullptr, nullptr, nullptr, nullptr, "Date Check Failed", "Offline PIN Verification Performed", "Offline Encrypted PIN Verification Performed", "Offline PIN Verification Successful",
	"Dynamic Data Authentication (DDA) Returned", "Combined DDA/Application Cryptogram Generation (CDA) Returned in First GENERATE AC", "Combined DDA/Application Cryptogram Generation (CDA) Returned in Second GENERATE AC", "Issuer Authentication Performed",
	"Card Issuer Action Codes (CIAC) Default Skipped on Cardholder Activated Terminal Level 3 (CAT3)", "Offline Change PIN Result Successful", nullptr, nullptr,
	nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
	"Last Online Transaction Not Completed", "Unable To Go Online", "Offline PIN Verification Not Performed", "Offline PIN Verification Failed", "PTL Exceeded", "International Transaction", "Domestic Transaction", "Terminal Erroneously Considers Offline PIN OK",
	nullptr, nullptr, nullptr, nullptr, "Go Online On Next Transaction Was Set", "Issuer Authentication Failed", "Script Received", "Script Failed",
	"Lower Consecutive Counter 2 Limit Exceeded", "Upper Consecutive Counter 2 Limit Exceeded", "Lower Cumulative Accumulator 2 Limit Exceeded", "Upper Cumulative Accumulator 2 Limit Exceeded",
	"MTA Limit Exceeded", "Number Of Days Offline Limit Exceeded", "Match Found In Additional Check Table", "No Match Found In Additional Check Table",
};
// from byte 2 on; the fields of contactless mobile applications differ in byte 2
const char* const VISA_BITS[] = {
	nullptr, nullptr, nullptr, nullptr, "Issuer Authentication performed and failed", nullptr, nullptr, "Unable to go online",
	"Last online transaction not completed", "PIN Try Limit exceeded", "Exceeded velocity checking counters", "New card", "Issuer Authentication failure on last online transaction", "Issuer Authentication not performed after online authorization",
	"Application blocked by card because PIN Try Limit exceeded", "Offline static data authentication failed on last transaction",
	nullptr, nullptr, nullptr, nullptr, "Issuer Script processing failed", "Offline dynamic data authentication failed on last transaction", "Offline dynamic data authentication performed", "PIN verification command not received for a PIN-Expecting card",
};
const char* const VISA_BYTE5[] = { "Consumer Device is not in debug mode", "Consumer Device is not a rooted device", "Mobile Application is not hooked", "Mobile Application integrity is intact", "Consumer Device has data connectivity", "Consumer Device is genuine",
	"CDCVM successfully performed", "Secure Messaging uses EMV Session key-based derivation" };

Known issuer_data(const Bytes& v, std::vector<std::string>& lines)
{
	size_t n = v.size();
	if (n > 32) { return REFUSED; }
	auto cvr = [&](const std::string& s) { lines.push_back("Card Verification Results (CVR): " + s); };
	auto bits = [&](const char* const* t, size_t count, const uint8_t* b) { for (size_t i = 0; i < count; ++i) { if (t[i] && (b[i / 8] << (i & 7) & 0x80)) { cvr(t[i]); } } };
	auto hex2 = [](unsigned x) { char b[8]; snprintf(b, sizeof(b), "%02X", x); return std::string(b); };
	auto cryptograms = [&](uint8_t b, const std::string& first) {
		static const char* const S[] = { "returned AAC", "returned TC", "Not Requested", "RFU" };
		static const char* const F[] = { "returned AAC", "returned TC", "returned ARQC", "RFU" };
		cvr(std::string("Second GENERATE AC ") + S[b >> 6]);
		cvr(first + " " + F[b >> 4 & 3]);
	};
	auto dki = [&](uint8_t b) { lines.push_back("Derivation Key Index (DKI): " + hex2(b)); };
	bool ccd = n == 32 && v[0] == 0x0F && v[16] == 0x0F && (v[1] == 0xA5 || v[1] == 0xA6);
	bool mchip = (n == 18 || n == 20 || n == 26 || n == 28) && (v[1] == 0x10 || v[1] == 0x11 || v[1] == 0x14 || v[1] == 0x15);
	bool old = n >= 7 && v[0] == 6 && v[3] == 3, mobile = n == 32 && v[0] == 0x1F && !(v[8] >> 4);
	if (ccd + mchip + old + mobile > 1) { return OPEN; }
	if (ccd) {
		const uint8_t* c = v.data() + 3;
		lines = { "Application: CCD-Compliant", "IAD Format: CCD Version 4.1", std::string("Cryptogram Version: ") + (v[1] == 0xA5 ? "TDES" : "AES") };
		dki(v[2]);
		cryptograms(c[0], "First GENERATE AC");
		bits(CCD_BITS, 32, c);
		cvr("PIN Try Counter is " + std::to_string(c[1] >> 4));
		if (c[3] >> 4) { cvr(std::to_string(c[3] >> 4) + " Successfully Processed Issuer Script Commands Containing Secure Messaging"); }
		if (c[4]) { cvr("RFU"); }
	} else if (mchip) {
		const uint8_t* c = v.data() + 2;
		lines = { n == 18 ? "Application: M/Chip 4" : "Application: M/Chip Advance", "Cryptogram Version Number (CVN): " + hex2(v[1]), std::string("Cryptogram: ") + (v[1] & 4 ? "EMV CSK session key" : "Mastercard Proprietary SKD session key"),
			v[1] & 1 ? "Cryptogram: Counter included in AC data" : "Cryptogram: Counters not included in AC data" };
		dki(v[0]);
		cryptograms(c[0], "First GENERATE AC");
		bits(MCHIP_BITS, 48, c);
		if (c[1] & 3) { cvr("Issuer Discretionary"); }
		if (c[2] >> 4) { cvr("Script Counter is " + std::to_string(c[2] >> 4)); }
		if (c[2] & 15) { cvr("PIN Try Counter is " + std::to_string(c[2] & 15)); }
		for (unsigned i = 0; i < 4; ++i) {
			if (!(c[4] << i & 0x80)) { continue; }
			cvr(std::string(i & 1 ? "Upper " : "Lower ") + (i < 2 ? "Consecutive " : "Cumulative ") + (n == 18 ? "Offline" : i < 2 ? "Counter 1" : "Accumulator") + " Limit Exceeded");
		}
	} else if (old) {
		unsigned f = v[2] >> 4;
		if (f != 0 && f != 1 && f != 3) { return OPEN; }
		char d[8];
		snprintf(d, sizeof(d), "%02u", v[2]);
		lines = { "Application: Visa Smart Debit/Credit (VSDC)", "IAD Format: " + std::to_string(f), "Cryptogram Version Number (CVN): " + hex2(v[2]) + " (CVN" + d + ")" };
		dki(v[1]);
		cryptograms(v[4], "First GENERATE AC");
		bits(VISA_BITS, 24, v.data() + 4);
		if (v[4] & 4) { cvr("Offline PIN verification performed"); }
		if (v[4] & 2) { cvr("Offline PIN verification failed"); }
		if (v[6] >> 4) { cvr("Script Counter is " + std::to_string(v[6] >> 4)); }
	} else if (mobile) {
		static const char* const ENT[] = { nullptr, "Visa Mobile Payment Application (VMPA)", "MG", "Co-residing SE app", "TEE app", "Mobile Application", "Terminal", "Verified in the cloud", "Verified by the mobile device OS" };
		static const char* const TYP[] = { nullptr, "Passcode", "Finger biometric", "Mobile device pattern", "Facial biometric", "Iris biometric", "Voice biometric", "Palm biometric", nullptr, nullptr, nullptr, nullptr, nullptr, "Signature", "Online PIN", nullptr };
		unsigned f = v[1] >> 4;
		if (f != 2 && f != 4) { return OPEN; }
		lines = { "Application: Visa Smart Debit/Credit (VSDC)", "IAD Format: " + std::to_string(f), "Cryptogram Version Number (CVN): " + hex2(v[1]) + " (CVN'" + hex2(v[1]) + "')" };
		dki(v[2]);
		if (!v[3]) { lines.push_back("No CDCVM"); }
		unsigned e = v[3] >> 4;
		if (e < 9 && ENT[e]) { cvr(ENT[e]); }
		if (TYP[v[3] & 15]) { cvr(TYP[v[3] & 15]); }
		cryptograms(v[4], "GPO");
		bits(VISA_BITS, 24, v.data() + 4);
		if (v[4] & 4) { cvr("CDCVM successfully performed"); }
		if (v[4] & 2) { cvr("RFU"); }
		if (v[6] >> 4) { cvr("Script Counter is " + std::to_string(v[6] >> 4)); }
		bits(VISA_BYTE5, 8, v.data() + 7);
	} else { lines = { "Unknown IAD format" }; }
	return LINES;
}
const uint32_t MC = 0x19F6E, FFI = 0x29F6E, ENH = 0x39F6E;
Known third_party(const Bytes& v, std::vector<std::string>& lines)
{
	static const char* const CONC[] = { "Senior Citizen, potentially eligible for senior citizen discounts", "Student, potentially eligible for student-based discounts", "Active military and veterans, potentially eligible for service member discounts",
		"Low Income household, potentially eligible for means-based discounts", "Disability, eligible for paratransit and other disability discounts", "Minor Child, potentially enables free travel for under 16 and young kids",
		"Transit Staff, potentially enables free travel for transit staff", "City/Government/Preferred Employees, potentially enables discounted travel for federal and preferred employees" };
	if (v.size() < 5 || v.size() > 32) { return REFUSED; }
	unsigned id = (unsigned)v[2] << 8 | v[3];
	bool ext = id == 3 || id == 0x8003, dev = !(id & 0x8000);
	lines.push_back(std::string("Unique Identifier: ") + (!id ? "Proprietary Data not used" : ext ? "Mastercard Product Extension" : "Unknown"));
	size_t p = 4;
	if (dev) {
		if (v.size() < 7) { return REFUSED; }
		for (p = 4; p < 6; ++p) { if (!isalnum(v[p])) { return OPEN; } }
		lines.push_back(std::string("Device Type: ") + (char)v[4] + (char)v[5]);
	}
	Bytes d(v.begin() + (long)p, v.end());
	if (!id && (d[0] || d.size() != 1)) { return REFUSED; }
	if (!ext) { if (!d[0]) { lines.push_back("Proprietary Data: Not used"); } return LINES; }
	if (d.size() < 2) { return REFUSED; }
	unsigned prod = (unsigned)d[0] << 8 | d[1];
	if (prod == 1) {
		if (d.size() != 8) { return REFUSED; }
		lines.push_back("Product Identifier: Fleet Card");
		if (d[2]) { lines.push_back(std::string("Product Restriction Code: ") + (d[2] == 1 ? "Good for fuel and other products" : d[2] == 2 ? "Good for fuel only" : "RFU")); }
		static const char* const P[] = { "ID Number", "Vehicle Number", "Driver Number", "Odometer" };
		for (unsigned i = 0; i < 4; ++i) { if (d[3] >> i & 1) { lines.push_back(std::string("Product Type Code: Prompt for ") + P[i]); } }
		if (d[3] >> 4) { lines.push_back("Product Type Code: RFU"); }
		if (d[4]) { lines.push_back(std::string("Card Type: ") + (d[4] == 0x80 ? "Driver card" : d[4] == 0x40 ? "Vehicle card" : "RFU")); }
	} else if (prod == 2) {
		if (d.size() != 5) { return REFUSED; }
		lines.push_back("Product Identifier: Transit");
		if (d[2] & 0x80) { lines.push_back("Transit: Deferred Authorization Not Supported"); }
		if (d[2] & 0x7F) { lines.push_back("Transit: RFU"); }
		lines.push_back("Concession Code: " + (d[3] && d[3] < 9 ? "0" + std::to_string(d[3]) + " - " + CONC[d[3] - 1] : std::string("RFU")));
	} else { lines.push_back("Product Identifier: Unknown"); }
	return LINES;
}

// the longest beginning decides
const struct { const char* aid; const char* text; } NAMES[] = {
	{ "A000000003", "Visa" }, { "A0000000031010", "Visa Credit/Debit" }, { "A0000000032010", "Visa Electron" }, { "A0000000032020", "V Pay" }, { "A0000000038010", "Visa Plus" }, { "A000000098", "Visa USA Debit" },
	{ "A000000004", "Mastercard" }, { "A0000000041010", "Mastercard Credit/Debit" }, { "A0000000043060", "Maestro" }, { "A0000000046000", "Mastercard Cirrus" }, { "A0000000042203", "Mastercard USA Debit" }, { "A000000005", "Maestro UK" }, { "B012345678", "Mastercard Test Card" },
	{ "A000000025", "American Express Credit/Debit" }, { "A000000790", "American Express (China Credit/Debit)" }, { "A000000152", "Discover" }, { "A0000001523010", "Discover Card" }, { "A0000001524010", "Discover USA Debit" }, { "A000000324", "Discover ZIP" },
	{ "A000000042", "Cartes Bancaires (CB)" }, { "A0000000421010", "Cartes Bancaires (CB) Credit/Debit" }, { "A0000000422010", "Cartes Bancaires (CB) Debit" }, { "A000000065", "JCB" },
	{ "A000000121", "Dankort" }, { "A0000001214711", "Visa/Dankort" }, { "A0000001214712", "Dankort (J/Speedy)" },
	{ "A000000333", "UnionPay" }, { "A000000333010101", "UnionPay Debit" }, { "A000000333010102", "UnionPay Credit" }, { "A000000333010103", "UnionPay Quasi-credit" }, { "A000000333010106", "UnionPay Electronic Cash" }, { "A000000333010108", "UnionPay USA Debit" },
	{ "A000000337", "GIM-UEMOA" }, { "A000000337101000", "GIM-UEMOA Standard" }, { "A000000337101001", "GIM-UEMOA Prepaye Online" }, { "A000000337102000", "GIM-UEMOA Classic" }, { "A000000337102001", "GIM-UEMOA Prepaye Possibile Offline" }, { "A000000337301000", "GIM-UEMOA Retrait" }, { "A000000337601001", "GIM-UEMOA Porte Monnaie Electronique" },
	{ "A0000003591010028001", "Deutsche Kreditwirtschaft (DK) Girocard" }, { "A000000371", "Verve" }, { "A000000384", "eftpos (Australia)" }, { "A00000038410", "eftpos (Australia) savings" }, { "A00000038420", "eftpos (Australia) cheque" },
	{ "A000000524", "RuPay" }, { "A000000658", "Mir" }, { "A0000006581010", "Mir Credit" }, { "A0000006582010", "Mir Debit" }, { "A000000732", "Meeza" },
};
const struct { uint32_t tag; uint8_t value; const char* text; } KINDS[] = {
	{ 0x9C, 0x00, "Goods and services" }, { 0x9C, 0x01, "Cash" }, { 0x9C, 0x09, "Cashback" }, { 0x9C, 0x20, "Refund" }, { 0x9C, 0x30, "Inquiry" },
	{ 0x5F57, 0x00, "Default" }, { 0x5F57, 0x10, "Savings" }, { 0x5F57, 0x20, "Cheque/Debit" }, { 0x5F57, 0x30, "Credit" },
	{ 0x9F39, 0x00, "Unknown" }, { 0x9F39, 0x01, "Manual PAN entry" }, { 0x9F39, 0x02, "Magnetic stripe" }, { 0x9F39, 0x03, "Optical Code" }, { 0x9F39, 0x04, "OCR" },
	{ 0x9F39, 0x05, "Integrated circuit card (ICC). CVV can be checked." }, { 0x9F39, 0x07, "Auto entry via contactless EMV" }, { 0x9F39, 0x10, "Merchant has Cardholder Credentials on File" },
	{ 0x9F39, 0x80, "Fallback from integrated circuit card (ICC) to magnetic stripe" }, { 0x9F39, 0x90, "Magnetic stripe as read from track 2. CVV can be checked." },
	{ 0x9F39, 0x91, "Auto entry via contactless magnetic stripe" }, { 0x9F39, 0x95, "Integrated circuit card (ICC). CVV may not be checked." }, { 0x9F39, 0x99, "Same as original transaction" },
};
const struct { const char* code; const char* text; } CODES[] = {
#include "response_codes.inc"
};

Known issuer_authentication(const Bytes& v, std::vector<std::string>& lines)
{
	if (v.size() < 8) { return REFUSED; }
	if (v.size() > 16) { return OPEN; }
	auto h = [&](size_t from, size_t n) { std::string s; char b[4]; for (size_t i = from; i < from + n; ++i) { snprintf(b, sizeof(b), "%02X", v[i]); s += b; } return s; };
	const std::string ARPC = "Authorisation Response Cryptogram (ARPC): ", CSU = "Card Status Update (CSU): ";
	bool code = v.size() == 10 && isalnum(v[8]) && isalnum(v[9]);
	if (code || (v.size() == 10 && !(v[8] & 0xF0))) {
		lines.push_back(ARPC + h(0, 8));
		lines.push_back(code ? std::string("Authorisation Response Code: ") + (char)v[8] + (char)v[9] : "M/Chip ARPC Response Code: " + h(8, 2));
		return LINES;
	}
	const uint8_t* c = v.data() + 4;
	if (c[0] & 0x70 || c[2]) { return LINES; }
	lines.push_back(ARPC + h(0, 4));
	if (c[0] & 0x80) { lines.push_back(CSU + "Proprietary Authentication Data Included"); }
	if (c[0] & 15) { lines.push_back(CSU + "PIN Try Counter = " + std::to_string(c[0] & 15)); }
	static const char* const F[] = { "Issuer Approves Online Transaction", "Card Block", "Application Block", "Update PIN Try Counter", "Set Go Online on Next Transaction", "CSU Created by Proxy for the Issuer" };
	for (unsigned i = 0; i < 6; ++i) { if (c[1] & 0x80 >> i) { lines.push_back(CSU + F[i]); } }
	static const char* const K[] = { "Do Not Update Offline Counters", "Set Offline Counters to Upper Offline Limits", "Reset Offline Counters to Zero", "Add Transaction to Offline Counter" };
	lines.push_back(CSU + K[c[1] & 3]);
	if (c[3]) { lines.push_back(CSU + "Issuer Discretionary 0x" + h(7, 1)); }
	if (v.size() > 8 && c[0] & 0x80) { lines.push_back("Proprietary Authentication Data: " + std::to_string(v.size() - 8) + " bytes"); }
	return LINES;
}
}

std::vector<std::string> comparable(std::vector<std::string> v)
{
	for (size_t i = 0; i < v.size(); ++i) {
		if (v[i].compare(0, 9, "Country: ") == 0) { v.erase(v.begin() + (long)i--); continue; }
		if (v[i].compare(0, 13, "Device Type: ") == 0 && v[i].size() > 18 && v[i].compare(15, 3, " - ") == 0) { v[i].resize(15); }
	}
	std::sort(v.begin(), v.end());
	return v;
}

bool whole(uint32_t tag) { return tag != 0x4F && tag != 0x84 && tag != 0x9F06 && tag != 0x8A && tag != 0x86 && tag != 0x9C && tag != 0x9F39 && tag != 0x5F57 && tag != 0x9F6D; }
bool quoted(uint32_t tag) { if (tag == 0x8A) { return true; } if (tag == 0x5F53 || tag == 0x5F54) { return false; } for (auto& t : PLAIN) { if (t.tag == tag) { return t.f <= CCS; } } return false; }

std::vector<std::string> split(const std::string& s)
{
	std::vector<std::string> v;
	size_t p = 0;
	while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { e = s.size(); } v.push_back(s.substr(p, e - p)); p = e + 1; }
	return v;
}

Known describe(uint32_t tag, const Bytes& v, std::string& s, std::vector<std::string>& lines)
{
	s.clear();
	lines.clear();
	for (auto& t : PLAIN) { if (t.tag == tag) { return plain(t.f, t.max, v, s); } }
	if (v.empty()) { return OPEN; }
	char b[160];
	switch (tag) {
		case 0x82: FLAGS(AIP, 2); return LINES;
		case 0x95: case 0x9F0D: case 0x9F0E: case 0x9F0F: FLAGS(TVR, 5); return LINES;
		case 0x9B: FLAGS(TSI, 2); return LINES;
		case 0x9F07: FLAGS(AUC, 2); return LINES;
		case 0x9F1D: FLAGS(TRM, 8); return LINES;
		case 0x9F33:
			FLAGS(CAPS, 3);
			if (!v[0]) { lines.push_back("Card Data Input Capability: None"); }
			if (!v[1]) { lines.push_back("CVM Capability: None"); }
			if (!v[2]) { lines.push_back("Security Capability: None"); }
			return LINES;
		case 0x9F40:
			FLAGS(MORE, 5);
			if (!v[0] && !v[1]) { lines.push_back("Transaction Type Capability: None"); }
			if (!v[2]) { lines.push_back("Terminal Data Input Capability: None"); }
			if (!(v[3] & 0xF0)) { return OPEN; }
			return LINES;
		case 0x57:
			if (v.size() > 500) { return OPEN; }
			for (size_t i = 0; i < v.size() * 2; ++i) {
				unsigned x = i & 1 ? v[i / 2] & 15 : v[i / 2] >> 4;
				if (x == 15) { break; }
				s += (char)('0' + x);
			}
			return TEXT;
		case 0x94:
			if (v.size() % 4) { return REFUSED; }
			for (size_t i = 0; i < v.size(); i += 4) {
				unsigned sfi = v[i] >> 3, f = v[i + 1], l = v[i + 2], o = v[i + 3];
				if ((v[i] & 7) || sfi == 0 || sfi == 31 || !f || l < f || o > l - f + 1) { return REFUSED; }
				int n = snprintf(b, sizeof(b), "SFI %u, record %u", sfi, f);
				if (l != f) { n += snprintf(b + n, sizeof(b) - (size_t)n, " to %u", l); }
				if (o) { snprintf(b + n, sizeof(b) - (size_t)n, ", %u record%s used for offline data authentication", o, o > 1 ? "s" : ""); }
				lines.push_back(b);
			}
			return LINES;
		case 0x8E:
			if (v.size() % 2 || v.size() < 10 || v.size() > 252) { return REFUSED; }
			for (size_t i = 8; i < v.size(); i += 2) {
				std::string X = std::to_string(number(Bytes(v.begin(), v.begin() + 4))), Y = std::to_string(number(Bytes(v.begin() + 4, v.begin() + 8)));
				lines.push_back(condition(v[i + 1], X, Y) + "; " + method(v[i]) + "; " + (v[i] & 0x40 ? "Apply succeeding CV Rule if this CVM is unsuccessful" : "Fail cardholder verification if this CVM is unsuccessful"));
			}
			return LINES;
		case 0x9F34:
			if (v.size() != 3) { return REFUSED; }
			lines.push_back("CVM Performed: " + (v[0] == 0x3F ? std::string("CVM not performed") : method(v[0])));
			lines.push_back("CVM Condition: " + condition(v[1], "X", "Y"));
			lines.push_back("CVM Result: " + (v[2] > 2 ? std::to_string(v[2]) : std::string(v[2] == 0 ? "Unknown" : v[2] == 1 ? "Failed" : "Successful")));
			return LINES;
		case 0x9F27: {
			static const char* const T[] = { "Application Authentication Cryptogram (AAC)", "Transaction Certificate (TC)", "Authorisation Request Cryptogram (ARQC)", "RFU" };
			static const char* const R[] = { nullptr, "Service not allowed", "PIN Try Limit exceeded", "Issuer authentication failed", "RFU", "RFU", "RFU", "RFU" };
			if (v.size() != 1) { return OPEN; }
			lines.push_back(std::string("Application Cryptogram (AC) type: ") + T[v[0] >> 6]);
			if (v[0] & 0x30) { snprintf(b, sizeof(b), "Payment System-specific cryptogram: 0x%02X", v[0] & 0x30); lines.push_back(b); }
			if (v[0] & 8) { lines.push_back("Advice required"); } else if (v[0] & 7) { lines.push_back("No advice required"); }
			if (v[0] & 7) { lines.push_back(std::string("Advice: ") + R[v[0] & 7]); }
			return LINES;
		}
		case 0x9F35: {
			static const char* const E[] = { "Unknown", "Attended, online only", "Attended, offline with online capability", "Attended, offline only", "Unattended, online only", "Unattended, offline with online capability", "Unattended, offline only", "Unknown" };
			static const char* const O[] = { "Unknown", "Financial Institution", "Merchant", "Cardholder" };
			if (v.size() != 1 || !v[0]) { return OPEN; }
			lines.push_back(std::string("Operational Control: ") + O[v[0] >> 4 & 3]);
			lines.push_back(std::string("Environment: ") + E[v[0] & 7]);
			return LINES;
		}
		case 0x9F66:
			if (v.size() != 4) { return REFUSED; }
			for (auto& r : TTQ) { const char* t = number(v) & r.mask ? r.on : r.off; if (t) { lines.push_back(t); } }
			return LINES;
		case 0x9F6C: FLAGS(CTQ, 2); return LINES;
		case 0x9F6D: {
			static const char* const C[] = { "Deprecated", "Mag-stripe CVM Not Required", "Deprecated - EMV and Mag-stripe", "EMV and Mag-stripe CVM Not Required" };
			if (v.size() != 1) { return REFUSED; }
			unsigned k = v[0] >> 6;
			s = !(v[0] & 8) ? C[k] : k == 1 ? "Mag-stripe CVM Required" : k == 3 ? "EMV and Mag-stripe CVM Required" : "Not Available for Use";
			return TEXT;
		}
		case 0x9F6E:
			if (v.size() > 4 && v.size() < 33) { Known k = third_party(v, lines); return k == REFUSED ? OPEN : k; }
			if (v.size() == 4 && v[0] >> 5 == 1 && !v[2] && !v[3]) { return describe(FFI, v, s, lines); }
			if (v.size() == 4 && (v[0] & 0x3B) == 0x18 && (v[1] & 0x8F) == 0x80 && !(v[2] & 0x3F) && !(v[3] & 0x18) && (v[3] & 7)) { return describe(ENH, v, s, lines); }
			return OPEN;
		case 0x9F10: return issuer_data(v, lines);
		case MC: return third_party(v, lines);
		case FFI:
			if (v.size() != 4) { return REFUSED; }
			if (v[0] >> 5 != 1) { lines.push_back("Form Factor Indicator (FFI): Version Number " + std::to_string(v[0] >> 5)); return LINES; }
			{
				static const char* const F[] = { "Card", "Mini-card", "Non-card Form Factor", "Consumer mobile phone", "Wrist-worn device" };
				lines.push_back(std::string("Consumer Payment Device Form Factor: ") + ((v[0] & 31) < 5 ? F[v[0] & 31] : "Unknown"));
				unsigned k = v[3] & 15;
				lines.push_back(std::string("Payment Transaction Technology: ") + (k == 0 ? "Proximity Contactless interface using ISO 14443 (including NFC)" : k == 1 ? "Not used in VCPS" : "Unknown"));
			}
			FLAGS(VISA, 4);
			return LINES;
		case ENH:
			FLAGS(AMEX, 4);
			{
				static const char* const K[] = { "2.2 - 2.3", "2.4 - 2.6", "2.7" };
				unsigned k = v[3] & 7;
				lines.push_back(std::string("C-4 kernel version ") + (k && k < 4 ? K[k - 1] : "unknown"));
			}
			return LINES;
		case 0x9C: case 0x5F57: case 0x9F39:
			if (v.size() != 1) { return OPEN; }
			for (auto& r : KINDS) { if (r.tag == tag && r.value == v[0]) { s = r.text; return TEXT; } }
			return REFUSED;
		case 0x8A:
			if (v.size() != 2 || !isalnum(v[0]) || !isalnum(v[1])) { return REFUSED; }
			s = { (char)v[0], (char)v[1] };
			for (auto& r : CODES) { if (s == r.code) { s += std::string(" - ") + r.text; break; } }
			return TEXT;
		case 0x9F0A:
			if (v.size() < 3) { return REFUSED; }
			for (size_t i = 0; i < v.size(); i += 3u + v[i + 2]) {
				if (v.size() - i < 3 || v.size() - i - 3 < v[i + 2]) { return OPEN; }
				unsigned id = v[i] << 8 | v[i + 1];
				lines.push_back(id == 1 ? "European Cards Stakeholders Group" : id == 3 ? "Technical Cooperation ep2 Association" : "Unknown ASRPD identifier");
			}
			return LINES;
		case 0x91: return issuer_authentication(v, lines);
		case 0x4F: case 0x84: case 0x9F06: {
			if (tag == 0x84 && v.size() == 14 && (v[0] == '1' || v[0] == '2')) { return OPEN; }
			if (v.size() < 5 || v.size() > 16) { return REFUSED; }
			std::string h;
			size_t best = 0;
			for (uint8_t c : v) { snprintf(b, sizeof(b), "%02X", c); h += b; }
			for (auto& r : NAMES) { size_t k = strlen(r.aid); if (k > best && h.compare(0, k, r.aid) == 0) { best = k; s = r.text; } }
			return best ? TEXT : REFUSED;
		}
		case 0x86:
			if (v.size() < 4) { return REFUSED; }
			if (!apdu::command(v, s)) { s.clear(); return OPEN; }
			return s.empty() ? REFUSED : TEXT;
	}
	return OPEN;
}

Bytes gen(uint32_t tag, std::function<uint32_t(uint32_t)> pick)
{
	Bytes v;
	auto bits = [&](unsigned n) { unsigned st = pick(3); for (unsigned i = 0; i < n; ++i) { v.push_back((uint8_t)(st == 0 ? pick(256) : st == 1 ? pick(256) & pick(256) : 0)); } if (st == 2) { unsigned b = pick(n * 8); v[b / 8] = (uint8_t)(0x80 >> b % 8); } };
	auto off = [&](unsigned n) { if (pick(6) == 5) { unsigned k = pick(3); if (k == 2 && n > 1) { v.pop_back(); } else if (k == 1) { v.push_back((uint8_t)pick(256)); } } };
	unsigned n;
	switch (tag) {
		case 0x82: case 0x9B: case 0x9F07: bits(n = 2); off(n); return v;
		case 0x95: case 0x9F0D: case 0x9F0E: case 0x9F0F: case 0x9F40: bits(n = 5); off(n); return v;
		case 0x9F33: bits(n = 3); off(n); return v;
		case 0x9F1D: bits(n = 8); off(n); return v;
		case 0x9F27: bits(1); return v;
		case 0x9C: case 0x5F57: case 0x9F39:
			for (n = 1; ; ++n) { auto& r = KINDS[pick(sizeof(KINDS) / sizeof(KINDS[0]))]; if (r.tag == tag || n == 6) { v.push_back(pick(4) ? r.value : (uint8_t)(pick(2) ? pick(10) << 4 | pick(10) : pick(256))); break; } }
			return v;
		case 0x4F: case 0x84: case 0x9F06: {
			const char* a = NAMES[pick(sizeof(NAMES) / sizeof(NAMES[0]))].aid;
			for (; *a; a += 2) { unsigned x; sscanf(a, "%2x", &x); v.push_back((uint8_t)x); }
			switch (pick(6)) {
				case 0: v.back() ^= (uint8_t)(1u << pick(8)); break;
				case 1: v.pop_back(); break;
				case 2: case 3: for (n = 1 + pick(pick(6) ? 5 : 14); n; --n) { v.push_back((uint8_t)(pick(2) ? pick(256) : pick(4) << 4 | pick(3))); } break;
			}
			return v;
		}
		case 0x8A: {
			auto& r = CODES[pick(sizeof(CODES) / sizeof(CODES[0]))];
			v = { (uint8_t)r.code[0], (uint8_t)r.code[1] };
			if (pick(5) == 4) { v[1] = (uint8_t)(pick(3) ? '0' + pick(75) : pick(256)); }
			off(2);
			return v;
		}
		case 0x9F0A:
			for (n = 1 + pick(4); n; --n) { v.push_back(0); v.push_back((uint8_t)(pick(5))); unsigned k = pick(6); v.push_back((uint8_t)k); while (k--) { v.push_back((uint8_t)pick(256)); } }
			off(3);
			return v;
		case 0x91:
			bits(n = 8 + (pick(2) ? pick(4) : pick(9)));
			if (pick(3)) { v[4] = (uint8_t)((v[4] & 0x8F) | (pick(3) ? 0 : 0x80)); v[6] = 0; }
			if (v.size() == 10) { unsigned k = pick(3); if (k == 0) { v[8] = (uint8_t)('0' + pick(10)); v[9] = (uint8_t)(pick(2) ? '0' + pick(10) : 'A' + pick(26)); } else if (k == 1) { v[8] &= 15; } }
			off(8);
			return v;
		case 0x86: {
			static const uint8_t INS[] = { 0x1E, 0x18, 0x16, 0xAE, 0xCA, 0xA8, 0x24, 0xDA, 0x20, 0xA4, 0xB2, 0xD6 };
			v = { (uint8_t)(pick(3) ? 0x80 | pick(2) << 2 : pick(2) << 2), INS[pick(sizeof(INS))], (uint8_t)(pick(2) ? pick(4) : pick(256)), (uint8_t)(pick(2) ? pick(4) : pick(256)) };
			n = pick(12) == 11 ? 120 + pick(130) : pick(9);
			if (n || pick(2)) { v.push_back((uint8_t)n); }
			for (; n; --n) { v.push_back((uint8_t)pick(256)); }
			off(4);
			return v;
		}
		case 0x9F34: v = { (uint8_t)(pick(4) ? pick(2) << 6 | pick(32) : 0x3F), (uint8_t)pick(12), (uint8_t)(pick(3) ? pick(4) : pick(256)) }; off(3); return v;
		case 0x94:
			for (n = 1 + pick(6); n; --n) {
				unsigned f = pick(4) ? 1 + pick(12) : 1 + pick(255), l = std::min(255u, f + (pick(2) ? 0 : pick(6))), o = pick(2) ? 0 : pick(l - f + 2);
				v.push_back((uint8_t)((1 + pick(30)) << 3)); v.push_back((uint8_t)f); v.push_back((uint8_t)l); v.push_back((uint8_t)o);
			}
			if (pick(4) == 3) { v[pick((uint32_t)v.size())] = (uint8_t)(pick(2) ? 0 : pick(256)); }
			if (pick(8) == 7) { v.resize(v.size() - 1 - pick(3)); }
			return v;
		case 0x8E:
			for (n = 0; n < 8; ++n) { v.push_back((uint8_t)(pick(2) ? 0 : pick(256))); }
			for (n = 1 + pick(pick(8) ? 8 : 121); n; --n) { v.push_back((uint8_t)(pick(2) << 6 | (pick(4) ? pick(32) : pick(64)))); v.push_back((uint8_t)(pick(4) ? pick(10) : pick(256))); }
			off(2);
			return v;
		case 0x9F35: case 0x9F6D: v.push_back((uint8_t)pick(256)); return v;
		case 0x9F66: bits(n = 4); off(n); return v;
		case 0x9F6C: bits(n = 2); off(n); return v;
		case 0x9F10: {
			unsigned k = pick(8);
			static const unsigned ADV[] = { 18, 20, 26, 28 };
			bits(k < 2 || k > 5 ? 32 : k < 4 ? ADV[pick(4)] : 7 + pick(26));
			if (k < 2) { v[0] = v[16] = 0x0F; v[1] = (uint8_t)(0xA5 + pick(2)); }
			else if (k < 4) { static const uint8_t C[] = { 0x10, 0x11, 0x14, 0x15 }; v[1] = C[pick(4)]; }
			else if (k < 6) { v[0] = 6; v[2] = (uint8_t)((pick(4) == 3 ? 3 : pick(2)) << 4 | pick(16)); v[3] = 3; }
			else { v[0] = 0x1F; v[1] = (uint8_t)((2 + 2 * pick(2)) << 4 | pick(16)); v[8] &= 15; if (pick(3) == 2) { v[3] = 0; } }
			off(33);
			return v;
		}
		case 0x9F6E: return gen(MC + 0x10000 * pick(3), pick);
		case FFI: bits(n = 4); if (pick(4)) { v[0] = (uint8_t)(0x20 | (pick(3) ? pick(6) : pick(32))); } if (pick(2)) { v[2] = v[3] = 0; } off(n); return v;
		case ENH: bits(n = 4); if (pick(2)) { v[0] = (uint8_t)((v[0] & 0xC4) | 0x18); v[1] = (uint8_t)((v[1] & 0x70) | 0x80); v[2] &= 0xC0; v[3] = (uint8_t)((v[3] & 0xE0) | (1 + pick(7))); } off(n); return v;
		case MC: {
			static const unsigned ID[] = { 0, 0x8000, 3, 0x8003, 1, 0x8001 };
			unsigned id = pick(8) == 7 ? pick(0x10000) : ID[pick(6)];
			v = { (uint8_t)pick(10), (uint8_t)(pick(10) << 4 | pick(10)), (uint8_t)(id >> 8), (uint8_t)id };
			if (!(id & 0x8000)) { v.push_back((uint8_t)('0' + pick(4))); v.push_back((uint8_t)('0' + pick(10))); }
			if (!id && pick(5)) { v.push_back(0); return v; }
			if ((id & 0x7FFF) == 3 && pick(5)) {
				unsigned prod = pick(4);
				v.push_back(0); v.push_back((uint8_t)prod);
				for (n = prod == 1 ? 6 : prod == 2 ? 3 : pick(8); n; --n) { v.push_back((uint8_t)(pick(3) == 2 ? pick(256) : pick(2) ? pick(10) : 1u << pick(8))); }
				off(9);
				return v;
			}
			for (n = pick(12); n; --n) { v.push_back((uint8_t)(pick(2) ? pick(256) : 0)); }
			return v;
		}
		case 0x57: {
			std::string d;
			for (n = 12 + pick(8); n; --n) { d += (char)pick(10); }
			d += (char)13;
			for (n = 7 + pick(12); n; --n) { d += (char)pick(10); }
			if (d.size() & 1) { d += (char)15; }
			for (size_t i = 0; i + 1 < d.size(); i += 2) { v.push_back((uint8_t)(d[i] << 4 | d[i + 1])); }
			return v;
		}
	}
	for (auto& t : PLAIN) {
		if (t.tag != tag) { continue; }
		unsigned max = t.max ? t.max : t.f == B ? 4 : t.f == DATE || t.f == TIME ? 6 : 20;
		if (t.f == B) { for (n = pick(6) ? 4 : pick(7); n; --n) { v.push_back((uint8_t)(pick(3) ? pick(256) : 0)); } return v; }
		if (t.f <= CCS) {
			for (n = pick(3) ? pick(max + 1) : max + pick(2); n; --n) { v.push_back((uint8_t)(t.f == CCS ? 0x20 + pick(95) : t.f == SP && pick(5) == 4 ? ' ' : t.f >= AN && pick(2) ? '0' + pick(10) : (pick(2) ? 'A' : 'a') + pick(26))); }
			if (!v.empty() && pick(5) == 4) {
				static const uint8_t EDGE[] = { 0x00, 0x1F, 0x20, 0x2F, 0x3A, 0x40, 0x5B, 0x60, 0x7B, 0x7E, 0x80, 0xFF };
				v[pick(2) ? pick((uint32_t)v.size()) : v.size() - 1] = EDGE[pick(12)];
			}
			return v;
		}
		n = t.f == DATE || t.f == TIME ? 3 : pick(3) ? (max + 1) / 2 : pick((max + 1) / 2 + 2);
		unsigned lead = pick(2) ? pick(n * 2 + 1) : 0;
		std::string d;
		for (unsigned i = 0; i < n * 2; ++i) { d += (char)(i < lead ? 0 : pick(10)); }
		if (t.f == CN && pick(2)) { for (unsigned i = pick(std::min(n * 2, 8u) + 1); i; --i) { d[d.size() - i] = 15; } }
		if (!d.empty() && pick(5) == 4) { d[pick(2) ? pick((uint32_t)d.size()) : d.size() - 1] = (char)(10 + pick(6)); }
		for (size_t i = 0; i + 1 < d.size(); i += 2) { v.push_back((uint8_t)(d[i] << 4 | d[i + 1])); }
		return v;
	}
	return v;
}
}
