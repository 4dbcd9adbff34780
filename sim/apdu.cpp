#include "apdu.hpp"
#include <map>

namespace apdu {
static std::string h2(unsigned a) { char b[8]; snprintf(b, sizeof(b), "%02X", a & 0xFF); return b; }
static std::string n(unsigned v) { return std::to_string(v); }

// ISO 7816-4:2005, table 4.2
static const std::map<uint8_t, const char*> NAMES = {
	{ 0x04, "DEACTIVATE FILE" }, { 0x0C, "ERASE RECORD" }, { 0x0E, "ERASE BINARY" }, { 0x0F, "ERASE BINARY" },
	{ 0x10, "PERFORM SCQL OPERATION" }, { 0x12, "PERFORM TRANSACTION OPERATION" }, { 0x14, "PERFORM USER OPERATION" },
	{ 0x20, "VERIFY" }, { 0x21, "VERIFY" }, { 0x22, "MANAGE SECURITY ENVIRONMENT" }, { 0x24, "CHANGE REFERENCE DATA" },
	{ 0x26, "DISABLE VERIFICATION REQUIREMENT" }, { 0x28, "ENABLE VERIFICATION REQUIREMENT" }, { 0x2A, "PERFORM SECURITY OPERATION" },
	{ 0x2C, "RESET RETRY COUNTER" }, { 0x44, "ACTIVATE FILE" }, { 0x46, "GENERATE ASYMMETRIC KEY PAIR" }, { 0x70, "MANAGE CHANNEL" },
	{ 0x82, "EXTERNAL AUTHENTICATE" }, { 0x84, "GET CHALLENGE" }, { 0x86, "GENERAL AUTHENTICATE" }, { 0x87, "GENERAL AUTHENTICATE" },
	{ 0x88, "INTERNAL AUTHENTICATE" }, { 0xA0, "SEARCH BINARY" }, { 0xA1, "SEARCH BINARY" }, { 0xA2, "SEARCH RECORD" },
	{ 0xB0, "READ BINARY" }, { 0xB1, "READ BINARY" }, { 0xC0, "GET RESPONSE" }, { 0xC2, "ENVELOPE" }, { 0xC3, "ENVELOPE" },
	{ 0xCA, "GET DATA" }, { 0xCB, "GET DATA" }, { 0xD0, "WRITE BINARY" }, { 0xD1, "WRITE BINARY" }, { 0xD2, "WRITE RECORD" },
	{ 0xD6, "UPDATE BINARY" }, { 0xD7, "UPDATE BINARY" }, { 0xDC, "UPDATE RECORD" }, { 0xDD, "UPDATE RECORD" },
	{ 0xE0, "CREATE FILE" }, { 0xE2, "APPEND RECORD" }, { 0xE4, "DELETE FILE" }, { 0xE6, "TERMINATE DF" }, { 0xE8, "TERMINATE EF" },
	{ 0xFE, "TERMINATE CARD USAGE" },
};
static const char* OCC[] = { "first", "last", "next", "previous" };

bool command(const Bytes& c, std::string& t)
{
	t.clear();
	if (c.size() < 4 || c[0] == 0xFF) { return true; }
	uint8_t ins = c[1], p1 = c[2], p2 = c[3];
	size_t lc = c.size() > 5 ? c[4] : 0;
	// 1: header only, 2: Le, 3: data, 4: data and Le, 0: anything else
	int kase = c.size() == 4 ? 1 : c.size() == 5 ? 2 : lc && c.size() == 5 + lc ? 3 : lc && c.size() == 6 + lc ? 4 : 0;
	if (c[0] & 0x80) {
		if (c[0] > 0x8F) { return false; }
		switch (ins) {
			case 0x1E: t = "APPLICATION BLOCK"; break;
			case 0x18: t = "APPLICATION UNBLOCK"; break;
			case 0x16: t = "CARD BLOCK"; break;
			case 0xAE: t = "GENERATE AC"; break;
			case 0xCA: t = "GET DATA field " + h2(p1) + h2(p2); break;
			case 0xA8: t = "GET PROCESSING OPTIONS"; break;
			case 0x24: t = "PIN CHANGE/UNBLOCK"; break;
		}
		return true;
	}
	if (c[0] >= 0x20 && c[0] < 0x40) { return false; }
	auto f = NAMES.find(ins);
	if (f != NAMES.end()) { t = f->second; return true; }
	if (ins == 0xA4) {
		if (kase == 2 && !p1 && !p2) { t = "SELECT Master File"; return true; }
		if (kase != 4) { return false; }
		if (!p1 && !p2 && lc == 2 && c[5] == 0x3F && c[6] == 0x00) { t = "SELECT Master File"; return true; }
		bool plain = true;
		std::string raw, hx;
		for (size_t i = 0; i < lc; ++i) { plain &= c[5 + i] >= 0x20 && c[5 + i] <= 0x7E; raw += (char)c[5 + i]; hx += h2(c[5 + i]); }
		t = std::string("SELECT ") + OCC[p2 & 3] + " " + (plain ? raw : hx);
		return true;
	}
	if (ins == 0xB2 || ins == 0xB3) {
		if (kase == 0) { return false; }
		if (kase != (ins == 0xB2 ? 2 : 4) || p1 == 0xFF) { return true; }
		t = "READ RECORD from short EF " + n(p2 >> 3) + ", ";
		std::string r = !p1 ? "current record" : (p2 & 4 ? "record number " : "record identifier ") + n(p1);
		if (p2 & 4) {
			switch (p2 & 3) {
				case 0: t += r; break;
				case 1: t += "all records from " + r + " up to last"; break;
				case 2: t += "all records from the last up to " + r; break;
				default: t.clear();
			}
		} else {
			t += std::string(OCC[p2 & 3]) + " occurence of " + r;
		}
		return true;
	}
	if (ins == 0xDA || ins == 0xDB) {
		if (kase == 0) { return false; }
		if (kase != 3) { return true; }
		t = "PUT DATA";
		if (ins == 0xDA) {
			if (p1 == 0 && p2 >= 0x40 && p2 < 0xFF) { t += " for BER-TLV field " + h2(p2); }
			else if (p1 == 1) { t += " for proprietary identifier " + h2(p2); }
			else if (p1 == 2 && p2 && p2 < 0xFF) { t += " for SIMPLE-TLV field " + h2(p2); }
			else if (p1 >= 0x40) { t += " for BER-TLV field " + h2(p1) + h2(p2); }
			return true;
		}
		if (!p1 && !p2) { return false; }
		if (!p1 && p2 < 0x1F) { t += " for short EF " + n(p2); }
		else if (p1 == 0x3F && p2 == 0xFF) { t += " for current DF"; }
		else { t += " for file " + h2(p1) + h2(p2); }
		return true;
	}
	return true;
}

// ISO 7816-4:2005, tables 5 and 6
static const std::map<uint16_t, const char*> STATUS = {
	{ 0x6200, "State of non-volatile memory is unchanged" }, { 0x6281, "Part of returned data may be corrupted" },
	{ 0x6282, "End of file or record reached before reading Ne bytes" }, { 0x6283, "Selected file deactivated" },
	{ 0x6284, "File control information not formatted according to ISO 7816-4:2005, 5.3.3" },
	{ 0x6285, "Selected file in termination state" }, { 0x6286, "No input data available from a sensor on the card" },
	{ 0x6300, "State of non-volatile memory has changed" }, { 0x6381, "File filled up by the last write" },
	{ 0x6400, "State of non-volatile memory is unchanged" }, { 0x6401, "Immediate response required by card" },
	{ 0x6500, "State of non-volatile memory has changed" }, { 0x6581, "Memory failure" },
	{ 0x6700, "Wrong length" },
	{ 0x6800, "Functions in CLA not supported" }, { 0x6881, "Logical channel not supported" }, { 0x6882, "Secure messaging not supported" },
	{ 0x6883, "Last command of the chain expected" }, { 0x6884, "Command chaining not supported" },
	{ 0x6900, "Command not allowed" }, { 0x6981, "Command incompatible with file structure" }, { 0x6982, "Security status not satisfied" },
	{ 0x6983, "Authentication method blocked" }, { 0x6984, "Reference data not usable" }, { 0x6985, "Conditions of use not satisfied" },
	{ 0x6986, "Command not allowed (no current EF)" }, { 0x6987, "Expected secure messaging data objects missing" },
	{ 0x6988, "Incorrect secure messaging data objects" },
	{ 0x6A00, "Wrong parameters P1-P2" }, { 0x6A80, "Incorrect parameters in the command data field" }, { 0x6A81, "Function not supported" },
	{ 0x6A82, "File or application not found" }, { 0x6A83, "Record not found" }, { 0x6A84, "Not enough memory space in the file" },
	{ 0x6A85, "Nc inconsistent with TLV structure" }, { 0x6A86, "Incorrect parameters P1-P2" },
	{ 0x6A87, "Nc inconsistent with parameters P1-P2" }, { 0x6A88, "Referenced data or reference data not found" },
	{ 0x6A89, "File already exists" }, { 0x6A8A, "DF name already exists" },
	{ 0x6B00, "Wrong parameters P1-P2" }, { 0x6D00, "Instruction code not supported or invalid" }, { 0x6E00, "Class not supported" },
	{ 0x6F00, "No precise diagnosis" },
};
bool status(uint16_t sw, std::string& t)
{
	unsigned a = sw >> 8, b = sw & 0xFF;
	t.clear();
	if (sw == 0x9000) { t = "Normal"; return true; }
	if (a == 0x61) { t = "Normal: " + n(b) + " data bytes remaining"; return b != 0; }
	if (((a & 0xF0) != 0x60 && (a & 0xF0) != 0x90) || a == 0x60) { t = "Invalid"; return true; }
	if ((a & 0xF0) == 0x90 || ((a == 0x67 || a == 0x6B || a == 0x6D || a == 0x6E || a == 0x6F) && b)) { t = "Proprietary"; return true; }
	t = a <= 0x63 ? "Warning: " : a <= 0x66 ? "Execution error: " : "Checking error: ";
	if (a == 0x66) { t += "Security error 0x" + h2(b); return true; }
	if (a == 0x6C) { t += "Wrong Le field (" + n(b) + " data bytes available)"; return b != 0; }
	auto f = STATUS.find(sw);
	if (f != STATUS.end()) { t += f->second; return true; }
	if ((a == 0x62 || a == 0x64) && b >= 2 && b <= 0x80) { t += "Card-originated query of " + n(b) + " bytes"; return true; }
	if (a == 0x63 && (b & 0xF0) == 0xC0) { t += "Counter is " + n(b & 15); return true; }
	t += "Unknown";
	return true;
}
}
