#include "txn.hpp"
#include "fields.hpp"
#include <algorithm>
using namespace sim;
using model::TlvList;
using model::App;

// library-independent outcome names
enum { R_OK = 0, R_ERROR = -1000 };

TlvList from_list(const struct emv_tlv_list_t& l)
{
	TlvList o;
	size_t n = 0;
	const struct emv_tlv_t* last = nullptr;
	for (const struct emv_tlv_t* t = l.front; t; t = t->next) {
		o.push_back(model::Tlv{ t->tag, Bytes(t->value, t->value + t->length) });
		last = t;
		if (++n > 100000) { break; }
	}
	if (last != l.back) { o.push_back(model::Tlv{ 0xBADBAD, {} }); }
	return o;
}

std::string app_str(const struct emv_app_t* a)
{
	char b[64];
	snprintf(b, sizeof(b), " prio=%u conf=%d ", a->priority, a->confirmation_required);
	std::string s = a->aid ? hex(a->aid->value, a->aid->length) : "none";
	return s + b + "\"" + std::string(a->display_name) + "\" " + model::str(from_list(a->tlv_list));
}
static std::string app_str(const App& a)
{
	char b[64];
	snprintf(b, sizeof(b), " prio=%u conf=%d ", a.priority, a.confirm);
	return hex(a.aid) + b + "\"" + a.name + "\" " + model::str(a.tlvs);
}

Txn::Txn()
{
	memset(&ttl, 0, sizeof(ttl));
	memset(&ctx, 0, sizeof(ctx));
	list.front = list.back = nullptr;
}

std::string Txn::tag(const char* p) const
{
	if (is_prop("P03") && link.faults) { return "P03"; }
	if (oom && hit()) { return "P12"; }
	return p;
}

static void endless(world::Link* l)
{
	if (is_prop("P04")) { violation("P04", "endless", "operation '" + std::string(stage()) + "' still exchanging with the card after " + std::to_string(l->steps) + " reader calls"); }
	run_abandon();
}

void Txn::setup_ctx()
{
	ttl.cardreader.ctx = &link;
	ttl.cardreader.trx = &world::link_trx;
	memset(&ctx, fill, sizeof(ctx));
	pre("setup");
	int r = emv_ctx_init(&ctx, &ttl);
	for (auto& t : term.config) { r |= emv_tlv_list_push(&ctx.config, t.tag, (unsigned)t.val.size(), t.val.data(), 0); }
	for (auto& a : term.aids) { r |= emv_tlv_list_push(&ctx.supported_aids, EMV_TAG_9F06_AID, (unsigned)a.v.size(), a.v.data(), a.partial ? EMV_ASI_PARTIAL_MATCH : EMV_ASI_EXACT_MATCH); }
	post();
	setup_failed = r != 0;
	if (r && !hit()) { violation(is_prop("P11") ? "P11" : "P08", "setup", "context set-up failed"); }
	if (!r && hit()) { violation("P12", "silent", "adding data reported success although memory ran out"); }
}
void Txn::load_params()
{
	pre("setup");
	int r = 0;
	for (auto& t : term.params) { r |= emv_tlv_list_push(&ctx.params, t.tag, (unsigned)t.val.size(), t.val.data(), 0); }
	post();
	setup_failed = r != 0;
	if (r && !hit()) { violation(is_prop("P11") ? "P11" : "P08", "setup", "adding a transaction parameter failed"); }
	if (!r && hit()) { violation("P12", "silent", "adding data reported success although memory ran out"); }
}
void Txn::begin(world::EmvCard* c, const world::LinkCfg& cfg)
{
	card = c;
	card->power_cycle();
	link.reset();
	link.cfg = cfg;
	link.card = card;
	link.junk = (uint8_t)(fill ^ 0x33);
	link.on_cap = &endless;
	ttl.cardreader.mode = cfg.tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU;
	pos = 0;
	cand.clear();
	icc = from_list(ctx.icc);
}
void Txn::pre(const char* s)
{
	alloc_fill(fill);
	stack_fill(fill);
	trace("%s", s);
	failed0 = alloc_failed();
	op_begin(s);
}
void Txn::post() { op_end(); }

Txn::Exec Txn::command(const Bytes& capdu, const char* p)
{
	model::ExecResult e = model::exec(link.log, pos, link.cfg.tpdu, capdu, 258);
	if (e.v == model::MISMATCH) {
		violation(is_prop("P02") ? "P02" : tag(p), "command", "expected command " + hex(capdu) + ": " + e.why);
	}
	if (e.v == model::AMBIG) { ambiguous = true; }
	return Exec{ e.v, e.data, e.sw };
}
void Txn::expect_no_more(const char* p)
{
	if (ambiguous) { return; }
	if (pos != link.log.size()) {
		violation(is_prop("P02") ? "P02" : tag(p), "extra-command", "unexpected transmission " + hex(link.log[pos].tx));
	}
}

static Bytes sel_cmd(uint8_t p2, const Bytes& name)
{
	Bytes c = { 0x00, 0xA4, 0x04, p2, (uint8_t)name.size() };
	c.insert(c.end(), name.begin(), name.end());
	c.push_back(0x00);
	return c;
}

// directory method; returns outcome (R_OK: continue)
int Txn::model_pse(std::vector<App>& out)
{
	tal = 0;
	static const char PSE[] = "1PAY.SYS.DDF01";
	Exec e = command(sel_cmd(0x00, Bytes(PSE, PSE + 14)), "P05");
	if (ambiguous) { return R_OK; }
	if (e.v == model::FAIL) { tal = EMV_TAL_ERROR_TTL_FAILURE; return EMV_OUTCOME_CARD_ERROR; }
	if (e.sw == 0x6A81) { tal = EMV_TAL_ERROR_CARD_BLOCKED; return EMV_OUTCOME_CARD_BLOCKED; }
	if (e.sw != 0x9000) { tal = e.sw == 0x6A82 ? EMV_TAL_RESULT_PSE_NOT_FOUND : e.sw == 0x6283 ? EMV_TAL_RESULT_PSE_BLOCKED : EMV_TAL_RESULT_PSE_SELECT_FAILED; probe("directory_not_selectable"); return R_OK; }
	TlvList fci;
	model::parse(e.data.data(), e.data.size(), fci, ambiguous);
	if (ambiguous) { return R_OK; }
	const model::Tlv* sfi = model::find(fci, 0x88);
	if (!sfi || sfi->val.size() != 1 || sfi->val[0] < 1 || sfi->val[0] > 30) { tal = sfi ? EMV_TAL_RESULT_PSE_SFI_INVALID : EMV_TAL_RESULT_PSE_SFI_NOT_FOUND; probe("directory_fci_unusable"); return R_OK; }
	for (unsigned rec = 1; rec < 256; ++rec) {
		e = command(Bytes{ 0x00, 0xB2, (uint8_t)rec, (uint8_t)((sfi->val[0] << 3) | 4), 0x00 }, "P05");
		if (ambiguous) { return R_OK; }
		if (e.v == model::FAIL) { out.clear(); tal = EMV_TAL_ERROR_TTL_FAILURE; return EMV_OUTCOME_CARD_ERROR; }
		if (e.sw == 0x6A83) { break; }
		if (e.sw != 0x9000) { probe("directory_record_error_skipped"); continue; }
		model::Dec d = model::ber(e.data.data(), e.data.size());
		if (d.indef) { ambiguous = true; return R_OK; }
		if (d.r <= 0 || d.tag != 0x70) { probe("directory_record_malformed"); continue; }
		const uint8_t* p = e.data.data() + d.off;
		size_t n = d.len;
		while (n) {
			model::Dec t = model::ber(p, n);
			if (t.indef) { ambiguous = true; return R_OK; }
			if (t.r <= 0) { probe("directory_record_tail_malformed"); break; }
			if (t.tag == 0x61) {
				App a;
				if (model::app_from_entry(fci, p + t.off, t.len, a, ambiguous)) {
					if (model::supported(a.aid, term.aids)) { out.push_back(a); }
					else { probe("directory_entry_unsupported"); }
				} else { probe("directory_entry_malformed"); }
				if (ambiguous) { return R_OK; }
			}
			p += t.r;
			n -= t.r;
		}
	}
	return R_OK;
}

int Txn::model_direct(std::vector<App>& out)
{
	tal = 0;
	for (auto& aid : term.aids) {
		bool next = false;
		for (;;) {
			Exec e = command(sel_cmd(next ? 0x02 : 0x00, aid.v), "P05");
			if (ambiguous) { return R_OK; }
			if (e.v == model::FAIL) { tal = EMV_TAL_ERROR_TTL_FAILURE; return EMV_OUTCOME_CARD_ERROR; }
			if (!next && e.sw == 0x6A81) { tal = EMV_TAL_ERROR_CARD_BLOCKED; return EMV_OUTCOME_CARD_BLOCKED; }
			if (e.sw != 0x9000 && e.sw != 0x6283) { break; }
			App a;
			bool good = model::app_from_fci(e.data.data(), e.data.size(), a, ambiguous);
			if (ambiguous) { return R_OK; }
			if (!good) { probe("direct_fci_malformed"); break; }
			if (a.aid.size() == aid.v.size()) {
				if (e.sw == 0x9000) { out.push_back(a); probe("direct_exact_match"); } else { probe("direct_blocked_skipped"); }
				break;
			}
			if (!aid.partial) { probe("direct_partial_not_allowed"); break; }
			if (e.sw == 0x9000) { out.push_back(a); probe("direct_partial_match"); } else { probe("direct_blocked_skipped"); }
			next = true;
		}
	}
	return R_OK;
}

static bool name_ok(const struct emv_app_t* a, const App& m)
{
	// (a fixed-size name field may hold only the beginning of a name that is
	// longer than 16 characters of up to 3 bytes)
	size_t cap = sizeof(a->display_name);
	size_t n = strnlen(a->display_name, cap);
	if (n == cap) { return false; }
	std::string real(a->display_name, n);
	return real == m.name || (n >= 48 && m.name.compare(0, n, real) == 0);
}

void Txn::check_list(const char* p, const char* what)
{
	size_t i = 0;
	const struct emv_app_t* last = nullptr;
	for (const struct emv_app_t* a = list.front; a; a = a->next, ++i) {
		if (i >= cand.size()) { violation(tag(p), "list", std::string(what) + ": extra candidate " + app_str(a)); }
		App& m = cand[i];
		if (!a->aid || Bytes(a->aid->value, a->aid->value + a->aid->length) != m.aid || from_list(a->tlv_list) != m.tlvs) {
			violation(tag(p), "list", std::string(what) + ": candidate " + std::to_string(i) + " is " + app_str(a) + " expected " + app_str(m));
		}
		last = a;
	}
	if (i != cand.size()) { violation(tag(p), "list", std::string(what) + ": candidate missing: " + app_str(cand[i])); }
	if (list.back != last) { violation(tag(p), "list", std::string(what) + ": list end inconsistent"); }
}

static const char* oname(int r)
{
	switch (r) {
		case 0: return "success";
		case EMV_OUTCOME_CARD_ERROR: return "card error";
		case EMV_OUTCOME_CARD_BLOCKED: return "card blocked";
		case EMV_OUTCOME_NOT_ACCEPTED: return "not accepted";
		case EMV_OUTCOME_TRY_AGAIN: return "try again";
		case EMV_OUTCOME_GPO_NOT_ACCEPTED: return "processing not accepted";
		case R_ERROR: return "any error";
	}
	return r < 0 ? "error" : "unknown outcome";
}
static std::string od(int got, int want) { return std::string("reported ") + oname(got) + " (" + std::to_string(got) + ") expected " + oname(want); }

int Txn::build()
{
	pre("build");
	int r = emv_build_candidate_list(&ctx, &list);
	post();
	snap.lines.push_back("build " + std::to_string(r));
	for (const struct emv_app_t* a = list.front; a; a = a->next) { snap.lines.push_back(" " + app_str(a)); }
	bool req = emv_app_list_selection_is_required(&list);
	snap.lines.push_back(req ? " selection" : " no selection");
	ev(0xB1, (uint64_t)(int64_t)r);
	if (!check) { return r; }
	if (hit()) {
		// each candidate that is offered must be genuine and complete
		evaluated();
		pos = link.log.size();
		probe(r ? "build_failed_for_memory" : "build_succeeded_despite_memory");
		for (const struct emv_app_t* a = list.front; a; a = a->next) {
			if (std::find(universe->begin(), universe->end(), app_str(a)) == universe->end()) { violation("P12", "candidate", "with memory short the list contains " + app_str(a) + " which the card does not offer like that"); }
		}
		if (r == 0 && !list.front) { violation("P12", "candidate", "success with an empty list"); }
		cand.clear();
		for (const struct emv_app_t* a = list.front; a; a = a->next) {
			App m;
			m.aid.assign(a->aid->value, a->aid->value + a->aid->length);
			m.tlvs = from_list(a->tlv_list);
			m.name = a->display_name;
			m.priority = a->priority;
			m.confirm = a->confirmation_required;
			cand.push_back(m);
		}
		return r;
	}

	std::vector<App> m;
	int want = model_pse(m);
	if (!ambiguous && want == R_OK && m.empty()) { want = model_direct(m); if (want == R_OK && m.empty()) { want = EMV_OUTCOME_NOT_ACCEPTED; } probe("list_of_aids_used"); }
	else if (!ambiguous && want == R_OK) { probe("directory_used"); }
	if (ambiguous) { probe("ambiguous_run"); return r; }
	expect_no_more("P05");
	evaluated();
	if (r != want) { violation(tag("P05"), "outcome", "building the candidate list " + od(r, want)); }
	probe((std::string("build: ") + oname(want)).c_str());
	if (want != R_OK) {
		cand.clear();
		if (want == EMV_OUTCOME_NOT_ACCEPTED && !emv_app_list_is_empty(&list)) { violation(tag("P05"), "list", "not accepted with a candidate in the list"); }
		return r;
	}
	// content (any order)
	std::vector<std::string> ms, rs;
	for (auto& a : m) { ms.push_back(hex(a.aid) + model::str(a.tlvs)); }
	size_t n = 0;
	for (const struct emv_app_t* a = list.front; a && n < 10000; a = a->next, ++n) {
		rs.push_back((a->aid ? hex(a->aid->value, a->aid->length) : std::string("none")) + model::str(from_list(a->tlv_list)));
	}
	std::vector<std::string> ms2 = ms, rs2 = rs;
	std::sort(ms2.begin(), ms2.end());
	std::sort(rs2.begin(), rs2.end());
	if (ms2 != rs2) {
		std::string d = "candidates are:";
		for (auto& s : rs) { d += "\n  " + s; }
		d += "\nexpected (any order):";
		for (auto& s : ms) { d += "\n  " + s; }
		violation(tag("P05"), "content", d);
	}
	// order: priority 1 to 15, then those without priority, else as found
	std::vector<App> order = m;
	std::stable_sort(order.begin(), order.end(), [](const App& x, const App& y) {
		return (x.priority ? x.priority : 16) < (y.priority ? y.priority : 16);
	});
	const struct emv_app_t* a = list.front;
	for (size_t i = 0; i < order.size(); ++i, a = a->next) {
		const App& x = order[i];
		if (Bytes(a->aid->value, a->aid->value + a->aid->length) != x.aid || from_list(a->tlv_list) != x.tlvs) {
			violation("P06", "order", "position " + std::to_string(i) + " is " + app_str(a) + " expected " + app_str(x));
		}
		if (i && order[i - 1].priority == x.priority) { probe(x.priority ? "equal_priority" : "several_without_priority"); }
	}
	bool confirm = false;
	a = list.front;
	for (size_t i = 0; i < order.size(); ++i, a = a->next) {
		if (a->priority != order[i].priority || a->confirmation_required != order[i].confirm) {
			violation("P06", "fields", "candidate " + app_str(a) + " expected " + app_str(order[i]));
		}
		if (!name_ok(a, order[i])) {
			violation("P06", "name", "candidate named \"" + std::string(a->display_name) + "\" expected " + app_str(order[i]));
		}
		if (model::find(order[i].tlvs, 0x9F12) && order[i].name != hex(order[i].aid)) { probe("preferred_name_present"); }
		confirm |= order[i].confirm;
	}
	bool want_req = order.size() > 1 || confirm;
	if (req != want_req) { violation("P06", "selection", want_req ? "cardholder selection not required but should be" : "cardholder selection required without reason"); }
	if (order.size() == 1 && confirm) { probe("single_candidate_confirmation"); }
	if (order.size() > 1) { probe("several_candidates"); }
	cand = order;
	return r;
}

int Txn::select(unsigned index)
{
	// expectations
	pre("select");
	int r = emv_select_application(&ctx, &list, index);
	post();
	snap.lines.push_back("select " + std::to_string(index) + " " + std::to_string(r));
	if (ctx.selected_app) { snap.lines.push_back(" " + app_str(ctx.selected_app)); }
	for (const struct emv_app_t* a = list.front; a; a = a->next) { snap.lines.push_back(" left " + app_str(a)); }
	ev(0x5E1, (uint64_t)(int64_t)r);
	if (!check || ambiguous) { return r; }
	have_sel = false;
	sel_moved = false;
	if (hit() && r) {
		evaluated();
		pos = link.log.size();
		probe("select_failed_for_memory");
		if (ctx.selected_app) { violation("P12", "selected", "an application is selected although selection failed for lack of memory"); }
		if (index < cand.size()) { cand.erase(cand.begin() + index); }
		check_list("P12", "after memory ran out");
		return r;
	}
	if (index >= cand.size()) {
		expect_no_more("P07");
		evaluated();
		probe("select: out of range");
		if (r == 0) { violation(tag("P07"), "outcome", "selection of a candidate that does not exist succeeded"); }
		if (ctx.selected_app) { violation(tag("P07"), "selected", "an application is selected after an invalid choice"); }
		check_list("P07", "after an invalid choice");
		return r;
	}
	App chosen = cand[index];
	cand.erase(cand.begin() + index);
	int want;
	App got;
	if (chosen.aid.size() > 16) {
		want = cand.empty() ? EMV_OUTCOME_NOT_ACCEPTED : EMV_OUTCOME_TRY_AGAIN;
	} else if (chosen.aid.size() < 5) {
		want = R_ERROR;
	} else {
		Exec e = command(sel_cmd(0x00, chosen.aid), "P07");
		if (ambiguous) { probe("ambiguous_run"); return r; }
		if (e.v == model::FAIL) { want = EMV_OUTCOME_CARD_ERROR; }
		else if (e.sw == 0x6A81) { want = EMV_OUTCOME_CARD_BLOCKED; }
		else if (e.sw == 0x9000 && model::app_from_fci(e.data.data(), e.data.size(), got, ambiguous) && got.aid == chosen.aid) { want = R_OK; }
		else { want = cand.empty() ? EMV_OUTCOME_NOT_ACCEPTED : EMV_OUTCOME_TRY_AGAIN; }
		if (ambiguous) { probe("ambiguous_run"); return r; }
	}
	expect_no_more("P07");
	evaluated();
	probe((std::string("select: ") + oname(want)).c_str());
	if (want == R_ERROR ? r == 0 : r != want) { violation(tag("P07"), "outcome", "selecting " + hex(chosen.aid) + " " + od(r, want)); }
	check_list("P07", "after selection");
	if (want == R_OK) {
		const struct emv_app_t* a = ctx.selected_app;
		if (!a) { violation(tag("P07"), "selected", "success without a selected application"); }
		if (!a->aid || Bytes(a->aid->value, a->aid->value + a->aid->length) != got.aid || from_list(a->tlv_list) != got.tlvs ||
			a->priority != got.priority || a->confirmation_required != got.confirm || !name_ok(a, got) || a->next) {
			violation(tag("P07"), "selected", "selected application is " + app_str(a) + " expected " + app_str(got));
		}
		have_sel = true;
		sel = got;
	} else if (ctx.selected_app) {
		violation(tag("P07"), "selected", "an application is selected although the outcome is " + std::string(oname(r)));
	}
	return r;
}

// processing options command and what its answer means
int Txn::model_gpo(const Bytes& data, TlvList& out)
{
	tal = 0;
	Bytes c = { 0x80, 0xA8, 0x00, 0x00, (uint8_t)data.size() };
	world::put(c, data);
	c.push_back(0x00);
	Exec e = command(c, "P08");
	if (ambiguous) { return R_OK; }
	if (e.v == model::FAIL) { tal = EMV_TAL_ERROR_TTL_FAILURE; return EMV_OUTCOME_CARD_ERROR; }
	if (e.sw == 0x6985) { tal = EMV_TAL_RESULT_GPO_CONDITIONS_NOT_SATISFIED; return EMV_OUTCOME_GPO_NOT_ACCEPTED; }
	if (e.sw != 0x9000) { tal = EMV_TAL_ERROR_GPO_FAILED; return EMV_OUTCOME_CARD_ERROR; }
	model::Dec d = model::ber(e.data.data(), e.data.size());
	if (d.indef) { ambiguous = true; return R_OK; }
	const uint8_t* p = e.data.data() + d.off;
	tal = EMV_TAL_ERROR_GPO_PARSE_FAILED;
	if (d.r <= 0) { probe("gpo_malformed"); return EMV_OUTCOME_CARD_ERROR; }
	if (d.tag == 0x80) {
		if (d.len < 6 || (d.len - 2) % 4) { probe("gpo_format1_bad_length"); return EMV_OUTCOME_CARD_ERROR; }
		out = { { 0x82, Bytes(p, p + 2) }, { 0x94, Bytes(p + 2, p + d.len) } };
		probe("gpo_format1");
	} else if (d.tag == 0x77) {
		int bad = model::parse(p, d.len, out, ambiguous);
		if (ambiguous) { return R_OK; }
		if (bad) { probe("gpo_format2_malformed"); return EMV_OUTCOME_CARD_ERROR; }
		if (!model::find(out, 0x82) || !model::find(out, 0x94)) { tal = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND; probe("gpo_format2_incomplete"); return EMV_OUTCOME_CARD_ERROR; }
		probe("gpo_format2");
	} else { tal = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND; probe("gpo_unknown_format"); return EMV_OUTCOME_CARD_ERROR; }
	tal = 0;
	return R_OK;
}

// profile or locator that the selected application's data does not contain
static bool more(const TlvList& l, const TlvList& had)
{
	for (uint32_t t : { 0x82u, 0x94u }) {
		auto is = [t](const model::Tlv& x) { return x.tag == t; };
		if (std::count_if(l.begin(), l.end(), is) > std::count_if(had.begin(), had.end(), is)) { return true; }
	}
	return false;
}

int Txn::initiate()
{
	pre("initiate");
	int r = emv_initiate_application_processing(&ctx, term.pos_entry);
	post();
	TlvList ricc = from_list(ctx.icc), rterm = from_list(ctx.terminal);
	snap.lines.push_back("initiate " + std::to_string(r));
	snap.lines.push_back(" icc " + model::str(ricc));
	snap.lines.push_back(" terminal " + model::str(rterm));
	ev(0x161, (uint64_t)(int64_t)r);
	if (!check || ambiguous) { return r; }
	if (hit() && r) {
		evaluated();
		pos = link.log.size();
		probe("initiate_failed_for_memory");
		if (more(ricc, sel.tlvs)) { violation("P12", "partial", "initiation failed for lack of memory but left " + model::str(ricc)); }
		icc = ricc;
		if (ctx.selected_app && emv_tlv_list_is_empty(&ctx.selected_app->tlv_list)) { sel_moved = true; }
		return r;
	}

	if (!have_sel || sel_moved) {
		expect_no_more("P08");
		evaluated();
		if (r == 0) { violation(is_prop("P11") ? "P11" : tag("P09"), "outcome", "initiation without a freshly selected application succeeded"); }
		icc = ricc;
		return r;
	}
	TlvList mterm = { { 0x9F39, { term.pos_entry } }, { 0x9F06, sel.aid }, { 0x9B, Bytes(2, 0) }, { 0x95, Bytes(5, 0) } };
	int want = R_OK;
	TlvList out;
	Bytes data = { 0x83, 0x00 };
	const model::Tlv* pdol = model::find(sel.tlvs, 0x9F38);
	if (pdol) {
		std::vector<model::DolEntry> d;
		if (!model::dol_parse(pdol->val, d)) { want = EMV_OUTCOME_CARD_ERROR; probe("pdol_malformed"); }
		else {
			Bytes v = model::dol_data(d, { &term.params, &term.config, &mterm });
			if (v.size() > 252) { want = EMV_OUTCOME_CARD_ERROR; probe("pdol_too_long"); }
			else { data = world::tlv(0x83, v); if (v.size() > 127) { probe("pdol_long_form"); } }
		}
	}
	bool commanded = false;
	if (want == R_OK) {
		commanded = true;
		want = model_gpo(data, out);
		if (ambiguous) { probe("ambiguous_run"); return r; }
	}
	expect_no_more("P08");
	evaluated();
	probe((std::string("initiate: ") + oname(want)).c_str());
	// terminal data
	if (rterm.size() != mterm.size()) { violation(tag("P08"), "terminal-data", "terminal data is " + model::str(rterm) + " expected " + model::str(mterm)); }
	for (auto& t : mterm) {
		const model::Tlv* x = model::find(rterm, t.tag);
		if (!x || x->val != t.val) { violation(tag("P08"), "terminal-data", "terminal data is " + model::str(rterm) + " expected " + model::str(mterm)); }
	}
	if (r != want) { violation(tag(commanded ? "P09" : "P08"), "outcome", "initiating " + od(r, want)); }
	if (want == R_OK) {
		TlvList m = sel.tlvs;
		m.insert(m.end(), out.begin(), out.end());
		if (ricc != m) { violation(tag("P09"), "card-data", "card data is " + model::str(ricc) + " expected " + model::str(m)); }
		icc = m;
		sel_moved = true;
	} else {
		if (more(ricc, sel.tlvs)) { violation(tag("P09"), "partial", "failed initiation left " + model::str(ricc)); }
		icc = ricc;
	}
	return r;
}

// the records a file locator names
int Txn::model_read(const Bytes& afl, TlvList& recs)
{
	bool foreign = false;
	tal = 0;
	for (size_t i = 0; i < afl.size(); i += 4) {
		const uint8_t* e = &afl[i];
		unsigned sfi = e[0] >> 3;
		if ((e[0] & 7) || sfi == 0 || sfi == 31 || e[1] == 0 || e[2] < e[1] || e[3] > e[2] - e[1] + 1) { tal = EMV_TAL_ERROR_AFL_INVALID; probe("afl_bad_entry"); return EMV_OUTCOME_CARD_ERROR; }
		for (unsigned rec = e[1]; rec <= e[2]; ++rec) {
			Exec x = command(Bytes{ 0x00, 0xB2, (uint8_t)rec, (uint8_t)(sfi << 3 | 4), 0x00 }, "P10");
			if (ambiguous) { return R_OK; }
			if (x.v == model::FAIL || x.sw != 0x9000) { tal = x.v == model::FAIL ? EMV_TAL_ERROR_TTL_FAILURE : EMV_TAL_ERROR_READ_RECORD_FAILED; probe("record_refused"); return EMV_OUTCOME_CARD_ERROR; }
			if (rec == 255) { probe("record_255"); }
			if (x.data.empty() || x.data[0] != 0x70) {
				if (sfi <= 10) { tal = EMV_TAL_ERROR_READ_RECORD_INVALID; probe("record_not_template"); return EMV_OUTCOME_CARD_ERROR; }
				probe("foreign_record_skipped");
				foreign = true;
				continue;
			}
			if (sfi <= 10) {
				model::Dec d = model::ber(x.data.data(), x.data.size());
				if (d.indef) { ambiguous = true; return R_OK; }
				if (d.r <= 0 || (size_t)d.r != x.data.size()) {
					// a record must be a single template
					tal = EMV_TAL_ERROR_READ_RECORD_INVALID;
					probe("record_not_single_template");
					return EMV_OUTCOME_CARD_ERROR;
				}
			}
			int bad = model::parse(x.data.data(), x.data.size(), recs, ambiguous);
			if (ambiguous) { return R_OK; }
			if (bad) { tal = EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED; probe("record_malformed"); return EMV_OUTCOME_CARD_ERROR; }
		}
	}
	tal = foreign ? EMV_TAL_RESULT_ODA_RECORD_INVALID : 0;
	return R_OK;
}

int Txn::read()
{
	pre("read");
	int r = emv_read_application_data(&ctx);
	post();
	TlvList ricc = from_list(ctx.icc);
	snap.lines.push_back("read " + std::to_string(r));
	snap.lines.push_back(" icc " + model::str(ricc));
	ev(0x4EAD, (uint64_t)(int64_t)r);
	if (!check || ambiguous) { return r; }
	if (hit() && r) {
		evaluated();
		pos = link.log.size();
		probe("read_failed_for_memory");
		if (ricc != icc) { violation("P12", "partial", "reading failed for lack of memory but changed the card data to " + model::str(ricc)); }
		return r;
	}
	int want = R_OK;
	TlvList recs;
	const model::Tlv* afl = model::find(icc, 0x94);
	if (!afl) { want = EMV_OUTCOME_CARD_ERROR; }
	else if (std::any_of(icc.begin(), icc.end(), [&](const model::Tlv& t) { return t.tag == 0x94 && t.val != afl->val; })) {
		// the card gave several different locators
		ambiguous = true;
		probe("ambiguous_run");
		return r;
	}
	else if (afl->val.empty()) { want = R_ERROR; }
	else if (afl->val.size() % 4 || afl->val.size() > 252) { want = EMV_OUTCOME_CARD_ERROR; probe("afl_bad_length"); }
	else {
		want = model_read(afl->val, recs);
		if (ambiguous) { probe("ambiguous_run"); return r; }
	}
	if (want == R_OK) {
		std::set<uint32_t> seen;
		for (auto& t : recs) { if (!seen.insert(t.tag).second) { want = EMV_OUTCOME_CARD_ERROR; probe("redundant_element_found"); } }
		if (want == R_OK && !(seen.count(0x5F24) && seen.count(0x5A) && seen.count(0x8C) && seen.count(0x8D))) { want = EMV_OUTCOME_CARD_ERROR; probe("mandatory_element_absent"); }
	}
	expect_no_more("P10");
	evaluated();
	probe((std::string("read: ") + oname(want)).c_str());
	if (want == R_ERROR ? r == 0 : r != want) { violation(tag("P10"), "outcome", "reading application data " + od(r, want)); }
	if (want == R_OK) { icc.insert(icc.end(), recs.begin(), recs.end()); }
	if (ricc != icc) { violation(tag("P10"), "card-data", std::string(want == R_OK ? "card data is " : "card data changed by a failed read: ") + model::str(ricc) + " expected " + model::str(icc)); }
	return r;
}

void Txn::clear_list()
{
	pre("clear");
	emv_app_list_clear(&list);
	post();
	cand.clear();
}
void Txn::clear_all()
{
	clear_list();
	pre("clear");
	emv_ctx_clear(&ctx);
	post();
	have_sel = false;
}

void Txn::full(unsigned attempts, bool again)
{
	int r = build();
	if (r || ambiguous) { return; }
	while (attempts--) {
		size_t n = 0;
		for (const struct emv_app_t* a = list.front; a; a = a->next) { ++n; }
		if (!n) { return; }
		unsigned idx = pick((uint32_t)n);
		if (pick(24) == 23) { idx = (unsigned)n + pick(3); }
		r = select(idx);
		if (ambiguous) { return; }
		if (r == EMV_OUTCOME_TRY_AGAIN || r == EMV_ERROR_INVALID_PARAMETER) { continue; }
		if (r) { return; }
		r = initiate();
		if (ambiguous) { return; }
		if (between) { between(); }
		if (r == EMV_OUTCOME_GPO_NOT_ACCEPTED) { continue; }
		if (r) { return; }
		r = read();
		if (between) { between(); }
		if (again && !ambiguous && pick(5) == 4) { probe("further_application_on_same_context"); continue; }
		return;
	}
}

// Data for the lists in which the card asks for data: the ones it gave so far,
// and others, from the data that the transaction has at this point.

void Txn::texts()
{
	static const uint32_t TAGS[] = { 0x42, 0x4F, 0x50, 0x56, 0x57, 0x5A, 0x81, 0x82, 0x84, 0x86, 0x89, 0x8A, 0x8E, 0x91, 0x94, 0x95, 0x9A, 0x9B, 0x9C, 0x5F20, 0x5F24, 0x5F25, 0x5F28, 0x5F2A, 0x5F2D, 0x5F30, 0x5F34, 0x5F36, 0x5F50,
		0x5F53, 0x5F54, 0x5F55, 0x5F56, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F04, 0x9F06, 0x9F07, 0x9F0A, 0x9F0B, 0x9F0C, 0x9F0D, 0x9F0E, 0x9F0F, 0x9F10, 0x9F11, 0x9F12, 0x9F15, 0x9F16, 0x9F1A, 0x9F1B, 0x9F1C, 0x9F1D,
		0x9F1E, 0x9F1F, 0x9F20, 0x9F21, 0x9F24, 0x9F25, 0x9F26, 0x9F27, 0x9F33, 0x9F34, 0x9F35, 0x9F36, 0x9F37, 0x9F39, 0x9F3A, 0x9F3B, 0x9F3C, 0x9F40, 0x9F41, 0x9F42, 0x9F4E, 0x9F66, 0x9F6C, 0x9F6D, 0x9F6E, 0xBF0C };
	const struct emv_tlv_list_t* all[4] = { &ctx.params, &ctx.config, &ctx.terminal, &ctx.icc };
	for (unsigned n = 1 + pick(4); n; --n) {
		uint32_t tag_ = 0;
		Bytes v;
		const struct emv_tlv_t* own = nullptr;
		unsigned kind = pick(8);
		std::vector<TlvList> before;
		for (auto l : all) { before.push_back(from_list(*l)); }
		if (kind < 3) {
			unsigned li = pick(4), k = (unsigned)before[li].size();
			if (!k) { continue; }
			own = all[li]->front;
			for (k = pick(k); k; --k) { own = own->next; }
			tag_ = own->tag;
			v.assign(own->value, own->value + own->length);
			probe("element_of_the_transaction");
		} else if (kind < 7) {
			tag_ = TAGS[pick(sizeof(TAGS) / sizeof(TAGS[0]))];
			unsigned len = pick(4) ? pick(13) : pick(80), st = pick(6);
			for (unsigned i = 0; i < len; ++i) {
				v.push_back((uint8_t)(st == 0 ? pick(256) : st == 1 ? pick(10) << 4 | pick(10) : st == 2 ? 0x20 + pick(95) : st == 3 ? (pick(2) ? 0 : pick(256)) : st == 4 ? (pick(2) ? 'A' + pick(26) : '0' + pick(10)) : 0xFF >> pick(8)));
			}
			if (st == 1 && pick(3) == 2) { for (unsigned i = pick(4); i && i <= v.size(); --i) { v[v.size() - i] = 0xFF; } }
			if (st == 1 && pick(3) == 2 && !v.empty()) { v.back() |= 15; }
			if (pick(3)) { Bytes w = fields::gen(tag_, [this](uint32_t n) { return pick(n); }); if (!w.empty()) { v = w; } }
		} else {
			// commands and status words
			static const uint8_t ins[] = { 0xA4, 0xB2, 0xA8, 0xCA, 0xAE, 0xC0, 0x82, 0x88, 0x84, 0x20, 0x18, 0x16, 0x24, 0x1E, 0xB0, 0xD6 };
			tag_ = 0x86;
			v = { (uint8_t)(pick(2) ? 0 : pick(2) ? 0x80 : pick(256)), ins[pick(16)], (uint8_t)pick(256), (uint8_t)pick(256) };
			Bytes x = rbytes(pick(12));
			if (pick(2)) { v.push_back((uint8_t)x.size()); }
			v.insert(v.end(), x.begin(), x.end());
		}
		std::unique_ptr<uint8_t[]> in(new uint8_t[v.size()]);
		std::copy(v.begin(), v.end(), in.get());
		struct emv_tlv_t t;
		memset(&t, 0, sizeof(t));
		t.ber.tag = tag_; t.ber.length = (unsigned)v.size(); t.ber.value = in.get();
		if (own) { t.ber.flags = own->ber.flags; t.flags = own->flags; }
		struct emv_tlv_info_t info;
		static const size_t ROOM = 24000;
		std::string full[2];
		int rc[2];
		std::string name = hex(v);
		{ char b[16]; snprintf(b, sizeof(b), "%X", tag_); name = std::string(b) + " with value " + name.substr(0, 200); }
		std::unique_ptr<char[]> big(new char[ROOM]);
		for (int k = 0; k < 2; ++k) {
			memset(big.get(), 0x30 + (int)pick(60), ROOM);
			stack_fill((uint8_t)(0x11 * pick(16)));
			pre("text");
			rc[k] = emv_tlv_get_info(k && own ? own : &t, &info, big.get(), ROOM);
			post();
			if (!memchr(big.get(), 0, ROOM)) { violation(tag("P27"), "unterminated", "the description of " + name + " has no end"); }
			full[k] = big.get();
		}
		evaluated();
		if (rc[0] != rc[1] || full[0] != full[1]) { violation(tag("P27"), "unstable", "the element " + name + " is described as \"" + full[0].substr(0, 300) + "\" (" + std::to_string(rc[0]) + ") and then as \"" + full[1].substr(0, 300) + "\" (" + std::to_string(rc[1]) + ")"); }
		std::string want;
		std::vector<std::string> want_lines;
		fields::Known known = fields::describe(tag_, v, want, want_lines);
		auto wrong = [&](const std::string& w) { violation(tag("P27"), "content", "the element " + name + " is described as \"" + full[0].substr(0, 600) + "\" (" + std::to_string(rc[0]) + ") instead of \"" + w.substr(0, 600) + "\""); };
		if (known == fields::TEXT) {
			probe("plain_text_compared");
			if (rc[0] != 0 || full[0] != want) { wrong(want); }
		} else if (known == fields::LINES) {
			probe("listed_text_compared");
			std::vector<std::string> got = fields::comparable(fields::split(full[0])), w = fields::comparable(want_lines);
			if (rc[0] != 0 || got != w) { std::string j; for (auto& x : w) { j += x + " | "; } wrong(j); }
		} else if (known == fields::REFUSED) {
			probe("improper_value_refused");
			if (!full[0].empty() || rc[0] == 0) { wrong("a refusal"); }
		}
		size_t room = pick(2) ? full[0].size() + pick(4) : 1 + pick((uint32_t)full[0].size() + 2);
		if (!room) { room = 1; }
		std::unique_ptr<char[]> small(new char[room]);
		memset(small.get(), 0x30 + (int)pick(60), room);
		pre("text");
		int r = emv_tlv_get_info(&t, &info, small.get(), room);
		post();
		ev(0xD11, (uint64_t)(int64_t)r, tag_);
		snap.lines.push_back("text " + name + ": " + std::to_string(rc[0]) + " " + full[0] + " " + std::to_string(room));
		if (!memchr(small.get(), 0, room)) { violation(tag("P27"), "unterminated", "the description of " + name + " in " + std::to_string(room) + " bytes has no end"); }
		std::string got(small.get());
		bool begin = full[0].compare(0, got.size(), got) == 0;
		if (!begin) {
			std::vector<std::string> gl = fields::split(got), fl = fields::split(full[0]);
			size_t k = 0;
			begin = true;
			for (auto& l : gl) {
				bool last = &l == &gl.back();      // the last one may be cut
				while (k < fl.size() && !(last ? fl[k].compare(0, l.size(), l) == 0 : fl[k] == l)) { ++k; }
				if (k++ >= fl.size()) { begin = false; break; }
			}
		}
		if (!begin) { violation(tag("P27"), "room", "the element " + name + " is described in " + std::to_string(room) + " bytes as \"" + got.substr(0, 300) + "\", which is not part of \"" + full[0].substr(0, 300) + "\""); }
		if (r == 0 && known == fields::TEXT && fields::whole(tag_) && got != full[0]) { violation(tag("P27"), "cut", "the description of " + name + " in " + std::to_string(room) + " bytes is given as \"" + got.substr(0, 300) + "\" without refusal, instead of \"" + full[0] + "\""); }
		if (r == 0 && rc[0] == 0 && room > full[0].size() + 80 && got != full[0]) { violation(tag("P27"), "cut", "the description of " + name + " is cut although there is room"); }
		probe(room > full[0].size() ? "room_enough" : "room_short");
		if (memcmp(in.get(), v.data(), v.size()) != 0) { violation(tag("P27"), "changed", "describing changed the element " + name); }
		for (unsigned i = 0; i < 4; ++i) {
			TlvList now = from_list(*all[i]);
			bool same = now.size() == before[i].size();
			for (size_t k = 0; same && k < now.size(); ++k) { same = now[k].tag == before[i][k].tag && now[k].val == before[i][k].val; }
			if (!same) { violation(tag("P27"), "changed", "describing an element changed the data of the transaction"); }
		}
	}
}

void Txn::lists()
{
	const struct emv_tlv_list_t* all[4] = { &ctx.params, &ctx.config, &ctx.terminal, &ctx.icc };
	for (unsigned n = 1 + pick(4); n; --n) {
		// the list, in memory that ends where it ends
		Bytes dol;
		TlvList have = from_list(ctx.icc);
		static const uint32_t known[] = { 0x8C, 0x8D, 0x9F38, 0x97 };
		const model::Tlv* own = pick(2) ? model::find(have, known[pick(4)]) : nullptr;
		if (own) { dol = own->val; probe("list_of_the_card"); }
		else {
			world::Swarm sw;
			sw.big = pick(4) == 3;
			sw.malformed = pick(3) == 2 ? 16 : 0;
			dol = world::gen_list(sw);
			while (pick(3) == 2 && !have.empty()) {
				const model::Tlv& t = have[pick((uint32_t)have.size())];
				for (int sh = 24; sh >= 0; sh -= 8) { if (t.tag >> sh) { dol.push_back((uint8_t)(t.tag >> sh)); } }
				dol.push_back((uint8_t)(pick(3) == 2 ? pick(32) : t.val.size()));
			}
		}
		std::unique_ptr<uint8_t[]> in(new uint8_t[dol.size()]);
		std::copy(dol.begin(), dol.end(), in.get());
		// the sources, in any order
		std::vector<unsigned> order = { 0, 1, 2, 3 };
		for (unsigned i = 3; i; --i) { std::swap(order[i], order[pick(i + 1)]); }
		order.resize(1 + pick(4));
		std::vector<const struct emv_tlv_list_t*> src;
		std::vector<TlvList> content;
		for (unsigned i : order) { src.push_back(all[i]); content.push_back(from_list(*all[i])); }
		std::vector<const TlvList*> msrc;
		for (auto& c : content) { msrc.push_back(&c); }
		std::vector<model::DolEntry> e;
		bool good = model::dol_parse(dol, e);
		Bytes want, known_byte;
		if (good) {
			want = model::dol_data(e, msrc);
			// how elements of the card itself are fitted to another length is not defined here
			for (auto& x : e) {
				bool open = false;
				for (size_t i = 0; i < msrc.size(); ++i) {
					const model::Tlv* t = model::find(*msrc[i], x.tag);
					if (t) { open = order[i] == 3 && t->val.size() != x.len; break; }
				}
				known_byte.insert(known_byte.end(), x.len, open ? 0 : 1);
			}
		}
		size_t cap = good ? want.size() : pick(300);
		unsigned k = pick(6);
		if (k == 5) { cap += 1 + pick(64); }
		else if (k >= 3 && cap) { cap -= k == 3 ? 1 : 1 + pick((uint32_t)cap); }
		std::unique_ptr<uint8_t[]> out(new uint8_t[cap]);
		memset(out.get(), 0xC7, cap);
		std::string what = hex(dol) + " with room for " + std::to_string(cap);
		size_t got = cap;
		pre("dol");
		int len = emv_dol_compute_data_length(in.get(), dol.size());
		int r = emv_dol_build_data(in.get(), dol.size(), src.data(), src.size(), out.get(), &got);
		struct emv_dol_itr_t itr;
		struct emv_dol_entry_t entry;
		std::vector<model::DolEntry> seen;
		int ir = emv_dol_itr_init(in.get(), dol.size(), &itr);
		while (!ir && seen.size() < 600 && (ir = emv_dol_itr_next(&itr, &entry)) > 0) { seen.push_back(model::DolEntry{ entry.tag, entry.length }); ir = 0; }
		post();
		ev(0xD01, (uint64_t)(int64_t)r);
		snap.lines.push_back("list " + what + ": " + std::to_string(len) + " " + std::to_string(r) + (r ? "" : " " + hex(Bytes(out.get(), out.get() + std::min(got, cap)))));
		evaluated();
		if (good ? len != (int)want.size() : len >= 0) { violation(tag("P25"), "length", "data length " + std::to_string(len) + " for list " + hex(dol) + " expected " + (good ? std::to_string(want.size()) : "an error")); }
		if (good) {
			bool same = !ir && seen.size() == e.size();
			for (size_t i = 0; same && i < e.size(); ++i) { same = seen[i].tag == e[i].tag && seen[i].len == e[i].len; }
			if (!same) { violation(tag("P25"), "entries", "the entries of list " + hex(dol) + " were not all found in order"); }
		} else if (ir >= 0 && !dol.empty()) { violation(tag("P25"), "entries", "the malformed list " + hex(dol) + " was read to its end without an error"); }
		if (!good) {
			probe("list_malformed");
			if (!r) { violation(tag("P25"), "malformed", "data was built for the malformed list " + what); }
		} else if (cap < want.size() || !cap) {
			probe("list_without_room");
			if (!r) { violation(tag("P25"), "room", "data was built for list " + what + " which needs " + std::to_string(want.size())); }
		} else {
			probe("list_built");
			if (r) { violation(tag("P25"), "refused", "building data for list " + what + " returned " + std::to_string(r)); }
			bool same = got == want.size();
			for (size_t i = 0; same && i < want.size(); ++i) { same = !known_byte[i] || out[i] == want[i]; }
			for (size_t i = want.size(); same && i < cap; ++i) { same = out[i] == 0xC7; }
			if (!same) { violation(tag("P25"), "data", "data for list " + what + " is " + hex(Bytes(out.get(), out.get() + std::min(got, cap))) + " expected " + hex(want)); }
		}
	}
}

// The same steps with the functions of the application layer, as a terminal
// with a flow of its own uses them.
void Txn::parts()
{
	auto differs = [&](const char* p, const std::string& what, int r) {
		evaluated();
		if (r != tal) { violation(tag(p), "result", what + " returned " + std::to_string(r) + " expected " + std::to_string(tal)); }
	};
	auto same = [&](const struct emv_app_t* a, const App& m) {
		return a->aid && Bytes(a->aid->value, a->aid->value + a->aid->length) == m.aid && from_list(a->tlv_list) == m.tlvs &&
			a->priority == m.priority && a->confirmation_required == m.confirm && name_ok(a, m);
	};
	auto compare = [&](const char* what, const std::vector<App>& m) {
		size_t i = 0;
		const struct emv_app_t* last = nullptr;
		for (const struct emv_app_t* a = list.front; a; a = a->next, ++i) {
			if (i >= m.size()) { violation(tag("P05"), "list", std::string(what) + ": extra application " + app_str(a)); }
			if (!same(a, m[i])) { violation(tag("P05"), "list", std::string(what) + ": application " + std::to_string(i) + " is " + app_str(a) + " expected " + app_str(m[i])); }
			last = a;
		}
		if (i != m.size()) { violation(tag("P05"), "list", std::string(what) + ": application missing: " + app_str(m[i])); }
		if (list.back != last) { violation(tag("P05"), "list", std::string(what) + ": list end inconsistent"); }
	};
	static uint8_t junk[64];
	// directory
	std::vector<App> m;
	pre("build");
	int r = emv_tal_read_pse(&ttl, &ctx.supported_aids, &list);
	post();
	ev(0x7A1, (uint64_t)(int64_t)r);
	model_pse(m);
	if (ambiguous) { probe("ambiguous_run"); return; }
	expect_no_more("P05");
	differs("P05", "reading the directory", r);
	if (r) { m.clear(); }
	compare("directory", m);
	probe(("parts: directory " + std::to_string(tal)).c_str());
	if (r < 0) { return; }
	// direct selection, also after a usable directory
	if (m.empty() || pick(4) == 3) {
		clear_list();
		m.clear();
		pre("build");
		r = emv_tal_find_supported_apps(&ttl, &ctx.supported_aids, &list);
		post();
		ev(0x7A2, (uint64_t)(int64_t)r);
		model_direct(m);
		if (ambiguous) { probe("ambiguous_run"); return; }
		expect_no_more("P05");
		differs("P05", "finding applications by name", r);
		probe(("parts: direct " + std::to_string(tal)).c_str());
		if (r) { return; }
		compare("direct selection", m);
	}
	if (m.empty()) { return; }
	// selection
	App chosen = m[pick((uint32_t)m.size())];
	struct emv_app_t* a = (struct emv_app_t*)junk;
	pre("select");
	r = emv_tal_select_app(&ttl, chosen.aid.data(), chosen.aid.size(), &a);
	post();
	ev(0x7A3, (uint64_t)(int64_t)r);
	App got;
	if (chosen.aid.size() < 5 || chosen.aid.size() > 16) { expect_no_more("P07"); evaluated(); if (!r) { violation(tag("P07"), "result", "selection with a name of " + std::to_string(chosen.aid.size()) + " bytes succeeded"); } return; }
	Exec e = command(sel_cmd(0x00, chosen.aid), "P07");
	if (ambiguous) { probe("ambiguous_run"); return; }
	if (e.v == model::FAIL) { tal = EMV_TAL_ERROR_TTL_FAILURE; }
	else if (e.sw == 0x6A81) { tal = EMV_TAL_ERROR_CARD_BLOCKED; }
	else if (e.sw == 0x6A82) { tal = EMV_TAL_RESULT_APP_NOT_FOUND; }
	else if (e.sw == 0x6283) { tal = EMV_TAL_RESULT_APP_BLOCKED; }
	else if (e.sw != 0x9000) { tal = EMV_TAL_RESULT_APP_SELECTION_FAILED; }
	else if (!model::app_from_fci(e.data.data(), e.data.size(), got, ambiguous)) { tal = EMV_TAL_RESULT_APP_FCI_PARSE_FAILED; }
	else { tal = got.aid == chosen.aid ? 0 : EMV_TAL_RESULT_APP_SELECTION_FAILED; }
	if (ambiguous) { if (!r) { emv_app_free(a); } probe("ambiguous_run"); return; }
	expect_no_more("P07");
	differs("P07", "selecting " + hex(chosen.aid), r);
	probe(("parts: select " + std::to_string(tal)).c_str());
	if (r) { if (a) { violation(tag("P07"), "selected", "an application is handed out although it was not selected"); } return; }
	if (!a || a == (struct emv_app_t*)junk || !same(a, got) || a->next) { violation(tag("P07"), "selected", "the selected application is not " + app_str(got)); }
	// processing options, added to data that is already there
	struct emv_tlv_list_t data = EMV_TLV_LIST_INIT;
	TlvList md;
	pre("initiate");
	if (pick(2)) { emv_tlv_list_append(&data, &a->tlv_list); md = got.tlvs; }
	emv_app_free(a);
	post();
	Bytes req = { 0x83, 0x00 };
	bool none = pick(3) == 2;
	if (!none) { req = world::tlv(0x83, rbytes(pick(4) == 3 ? pick(253) : pick(20))); }
	const struct emv_tlv_t* junk_tlv = (const struct emv_tlv_t*)junk;
	const struct emv_tlv_t *aip = junk_tlv, *afl = junk_tlv;
	bool want_aip = pick(4) != 3, want_afl = pick(4) != 3;
	pre("initiate");
	r = emv_tal_get_processing_options(&ttl, none ? nullptr : req.data(), none ? 0 : req.size(), &data, want_aip ? &aip : nullptr, want_afl ? &afl : nullptr);
	post();
	ev(0x7A4, (uint64_t)(int64_t)r);
	TlvList out;
	model_gpo(req, out);
	if (!ambiguous) {
		expect_no_more("P09");
		differs("P09", "processing options", r);
		probe(("parts: processing options " + std::to_string(tal)).c_str());
		if (!r) { md.insert(md.end(), out.begin(), out.end()); }
		if (from_list(data) != md) { violation(tag("P09"), "card-data", "card data is " + model::str(from_list(data)) + " expected " + model::str(md)); }
		auto points = [&](const struct emv_tlv_t* t, uint32_t tg) {
			if (r) { return t == nullptr; }
			for (const struct emv_tlv_t* x = data.front; x; x = x->next) { if (x == t) { return t->tag == tg && Bytes(t->value, t->value + t->length) == model::find(out, tg)->val; } }
			return false;
		};
		if (want_aip && !points(aip, 0x82)) { violation(tag("P09"), "profile", "application profile handed out is not the one in the answer"); }
		if (want_afl && !points(afl, 0x94)) { violation(tag("P09"), "profile", "file locator handed out is not the one in the answer"); }
	} else { probe("ambiguous_run"); }
	// records
	if (!ambiguous && !r) {
		Bytes loc = model::find(out, 0x94)->val;
		if (!loc.empty()) {
			struct emv_tlv_list_t got_recs = EMV_TLV_LIST_INIT;
			TlvList before, recs;
			if (pick(3) == 2) { pre("setup"); uint8_t v[2] = { 0x08, 0x40 }; emv_tlv_list_push(&got_recs, 0x5F28, 2, v, 0); post(); before.push_back({ 0x5F28, Bytes{ 0x08, 0x40 } }); }
			pre("read");
			int q = emv_tal_read_afl_records(&ttl, loc.data(), loc.size(), &got_recs);
			post();
			ev(0x7A5, (uint64_t)(int64_t)q);
			if (loc.size() % 4 || loc.size() > 252) { tal = EMV_TAL_ERROR_AFL_INVALID; } else { model_read(loc, recs); }
			if (!ambiguous) {
				expect_no_more("P10");
				differs("P10", "reading the records", q);
				probe(("parts: read " + std::to_string(tal)).c_str());
				before.insert(before.end(), recs.begin(), recs.end());
				if (q >= 0 && from_list(got_recs) != before) { violation(tag("P10"), "card-data", "record data is " + model::str(from_list(got_recs)) + " expected " + model::str(before)); }
			} else { probe("ambiguous_run"); }
			pre("clear");
			emv_tlv_list_clear(&got_recs);
			post();
		}
	}
	pre("clear");
	emv_tlv_list_clear(&data);
	post();
}
