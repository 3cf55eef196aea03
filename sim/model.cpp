// The byte-array reference model of a memory stream, and the plan text format.
#include "plan.h"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <sstream>

namespace sim
{
static void m_put(Model &m, Exp &e, uint8_t v)
{
    if (m.cur < m.b.size())
        m.b[m.cur] = v;
    else
        m.b.push_back(v);
    m.cur++;
    e.wdata.push_back(v);
}
static void m_puti(Model &m, Exp &e, uint64_t v, int n)
{
    for (int i = 0; i < n; i++)
        m_put(m, e, (uint8_t)(v >> (8 * (m.wb ? n - 1 - i : i))));
}
static uint8_t m_get(Model &m, Exp &e)
{
    if (m.cur < m.b.size())
        return m.b[m.cur++];
    e.hit_end = true;
    return 0;
}
static uint64_t m_geti(Model &m, Exp &e, int n)
{
    uint8_t b[8];
    for (int i = 0; i < n; i++)
        b[i] = m_get(m, e);
    uint64_t v = 0;
    for (int i = 0; i < n; i++)
        v |= (uint64_t)b[i] << (8 * (m.rb ? n - 1 - i : i));
    return v;
}
static int64_t sext(uint64_t v, int n) { return (int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n); }
static void m_sub(Model &m, Exp &e, int64_t len)
{
    e.str    = true;
    e.strmax = len > 1 ? (size_t)(len - 1) : 0;
    for (int64_t i = 0; i + 1 < len; i++)
    {
        if (m.cur >= m.b.size())
        {
            e.hit_end = true;
            break;
        }
        e.bytes.push_back(m.b[m.cur++]);
    }
    if (len > 0)
        m_get(m, e);
}
std::vector<uint8_t> damaged_image(const std::vector<uint8_t> &b, const Item &it)
{
    std::vector<uint8_t> r = b;
    switch (it.u)
    {
    case 1:
        if (it.n < r.size())
            r.resize(it.n);
        break;
    case 2:
        for (size_t i = 0; i < it.buf.size() && it.n + i < r.size(); i++)
            r[it.n + i] ^= it.buf[i];
        break;
    case 3:
    case 4:
        for (size_t i = 0; i < it.buf.size() && it.n + i < r.size(); i++)
            r[it.n + i] = it.buf[i];
        break;
    }
    return r;
}

const size_t POSCAP = 1u << 18, LENCAP = 1u << 18, PUTCAP = (1u << 24) + 65536;
bool model_apply(Model &m, const Item &it, Exp &e)
{
    const size_t n = (size_t)it.n, size = m.b.size();
    if (it.code < 100 && !m.live)
        return false;
    e.wpos = m.cur;
    auto setcur = [&](int64_t c) {
        if (c < 0 || (uint64_t)c > size)
            return false;
        m.cur  = (size_t)c;
        e.cri  = true;
        e.ri   = c;
        return true;
    };
    switch (it.code)
    {
    case S_WRITE:
    case S_WRITE_AT: {
        const size_t p = it.code == S_WRITE ? m.cur : (size_t)it.u;
        if (p > PUTCAP || it.buf.size() > LENCAP || (it.buf.empty() && p > size))
            return false;
        e.wrote = true, e.wseq = it.code == S_WRITE, e.wpos = p, e.wdata = it.buf;
        if (p + it.buf.size() > m.b.size())
            m.b.resize(p + it.buf.size());
        for (size_t i = 0; i < it.buf.size(); i++)
            m.b[p + i] = it.buf[i];
        e.cru = true;
        e.ru  = it.buf.size();
        if (it.code == S_WRITE)
            m.cur += it.buf.size();
        return true;
    }
    case S_READ:
    case S_READ_AT: {
        const uint64_t p   = it.code == S_READ ? m.cur : it.u;
        const size_t   c   = p >= size ? 0 : (n < size - p ? n : size - (size_t)p);
        e.cru = e.cb = true;
        e.ru         = c;
        e.hit_end    = c < n;
        for (size_t i = 0; i < c; i++)
            e.bytes.push_back(m.b[(size_t)p + i]);
        if (it.code == S_READ)
            m.cur += c;
        return true;
    }
    case S_PUT_AT:
        if (it.u > PUTCAP)
            return false;
        if (it.u >= size)
            m.b.resize((size_t)it.u + 1);
        m.b[(size_t)it.u] = (uint8_t)it.n;
        e.wrote = true, e.wpos = (size_t)it.u, e.wdata.assign(1, (uint8_t)it.n);
        return true;
    case S_GET_AT:
        e.cru     = true;
        e.ru      = it.u < size ? m.b[(size_t)it.u] : 0;
        e.hit_end = it.u >= size;
        return true;
    case S_SEEK_TOP: return setcur((int64_t)it.u);
    case S_SEEK_CUR: return setcur((int64_t)m.cur + (int64_t)it.u);
    case S_SEEK_END: return setcur((int64_t)size - (int64_t)it.u - 1);
    case S_SEEKTO:
        if (it.u > size)
            return false;
        m.cur = (size_t)it.u;
        return true;
    case S_TELL:
    case S_MARK:
        e.cru = true;
        e.ru  = m.cur;
        return true;
    case S_FEOF:
        e.cru = true;
        e.ru  = m.cur >= size;
        return true;
    case S_RLE: m.rb = false; return true;
    case S_RBE: m.rb = true; return true;
    case S_WLE: m.wb = false; return true;
    case S_WBE: m.wb = true; return true;
    case S_PU8:
    case S_PI8: e.wrote = e.wseq = true; m_puti(m, e, it.u, 1); return true;
    case S_PU16:
    case S_PI16: e.wrote = e.wseq = true; m_puti(m, e, it.u, 2); return true;
    case S_PU32:
    case S_PI32:
    case S_PF: e.wrote = e.wseq = true; m_puti(m, e, it.u, 4); return true;
    case S_PU64:
    case S_PI64:
    case S_PD: e.wrote = e.wseq = true; m_puti(m, e, it.u, 8); return true;
    case S_GU8: e.cru = true; e.ru = m_geti(m, e, 1); return true;
    case S_GU16: e.cru = true; e.ru = m_geti(m, e, 2); return true;
    case S_GU32:
    case S_GP32:
    case S_GF: e.cru = true; e.ru = m_geti(m, e, 4); return true;
    case S_GU64:
    case S_GP64:
    case S_GD: e.cru = true; e.ru = m_geti(m, e, 8); return true;
    case S_GI8: e.cri = true; e.ri = sext(m_geti(m, e, 1), 1); return true;
    case S_GI16: e.cri = true; e.ri = sext(m_geti(m, e, 2), 2); return true;
    case S_GI32: e.cri = true; e.ri = sext(m_geti(m, e, 4), 4); return true;
    case S_GI64: e.cri = true; e.ri = (int64_t)m_geti(m, e, 8); return true;
    case S_PP32:
    case S_PP64:
        e.cru = true;
        e.ru  = m.cur;
        e.wrote = e.wseq = true;
        for (int i = 0; i < (it.code == S_PP32 ? 4 : 8); i++)
            m_put(m, e, 0);
        return true;
    case S_ADJ32:
    case S_ADJ64: {
        const int w = it.code == S_ADJ32 ? 4 : 8;
        if (it.u > size || size - it.u < (size_t)w)
            return false;
        e.wrote = true, e.wpos = (size_t)it.u;
        for (int i = 0; i < w; i++)
        {
            const uint8_t v          = (uint8_t)((uint64_t)size >> (8 * (m.wb ? w - 1 - i : i)));
            m.b[(size_t)it.u + i]    = v;
            e.wdata.push_back(v);
        }
        return true;
    }
    case S_ALIGN: {
        if (it.u < 1 || it.u > 65536)
            return false;
        const size_t t = (m.cur + it.u - 1) / it.u * it.u;
        if (t > size)
            return false;
        m.cur = t;
        return true;
    }
    case S_PUTSTR:
        if (it.buf.size() > LENCAP)
            return false;
        e.wrote = e.wseq = true;
        m_puti(m, e, it.buf.size() + 1, 4);
        for (uint8_t c : it.buf)
            m_put(m, e, c);
        m_put(m, e, 0);
        return true;
    case S_PUTSUB:
        if (it.u > it.buf.size() + 1 || it.u > LENCAP)
            return false;
        e.wrote = e.wseq = true;
        for (uint64_t i = 0; i + 1 < it.u; i++)
            m_put(m, e, it.buf[i]);
        if (it.u)
            m_put(m, e, 0);
        return true;
    case S_GETSTR: {
        const int64_t len = sext(m_geti(m, e, 4), 4);
        e.str             = true;
        if (len > 0)
            m_sub(m, e, len);
        return true;
    }
    case S_GETSUB: m_sub(m, e, (int64_t)(int32_t)it.u); return true;
    case S_PTR:
        if (it.u >= size)
            return false;
        e.cru = e.cri = true;
        e.ru          = m.b[(size_t)it.u];
        e.ri          = m.cur < size ? m.b[m.cur] : -1;
        return true;
    case S_INIT:
        if (it.buf.empty() || it.buf.size() > LENCAP)
            return false;
        m.b   = it.buf;
        m.cur = 0;
        m.rb = m.wb = false;
        e.wrote     = true, e.wpos = 0, e.wdata = it.buf;
        return true;
    case S_SHRINK: return true;
    case SM_NEW:
        if (m.live)
            return false;
        m      = Model();
        m.live = true;
        return true;
    case SM_NEWMEM:
        if (m.live || it.buf.empty() || it.buf.size() > LENCAP)
            return false;
        m      = Model();
        m.b    = it.buf;
        m.live = true;
        return true;
    case SM_DEL:
        if (!m.live)
            return false;
        m = Model();
        return true;
    case SM_RELOAD: {
        if (!m.live)
            return false;
        const std::vector<uint8_t> img = damaged_image(m.b, it);
        m                              = Model();
        m.b                            = img;
        m.live                         = true;
        return true;
    }
    case SM_SCRIB:
    case SM_SRCFREE: return m.live;
    }
    return false; // SM_COPY / SM_ASSIGN are handled by the caller (two streams)
}

int group_of(int c)
{
    if (c >= 100)
        return G_LIFE;
    switch (c)
    {
    case S_READ:
    case S_READ_AT:
    case S_GET_AT: return G_RAW | G_READ;
    case S_WRITE:
    case S_WRITE_AT:
    case S_PUT_AT: return G_RAW;
    case S_SEEK_TOP:
    case S_SEEK_CUR:
    case S_SEEK_END:
    case S_SEEKTO: return G_SEEK;
    case S_TELL:
    case S_MARK:
    case S_FEOF:
    case S_PTR:
    case S_INIT:
    case S_SHRINK: return G_MISC;
    case S_RLE:
    case S_RBE:
    case S_WLE:
    case S_WBE: return G_ENDIAN;
    case S_PU8:
    case S_PI8: return G_U8;
    case S_GU8:
    case S_GI8: return G_U8 | G_READ;
    case S_PP32:
    case S_PP64:
    case S_ADJ32:
    case S_ADJ64: return G_PTR;
    case S_GP32:
    case S_GP64: return G_PTR | G_READ;
    case S_ALIGN: return G_ALIGN;
    case S_PUTSTR:
    case S_PUTSUB: return G_STR;
    case S_GETSTR:
    case S_GETSUB: return G_STR | G_READ;
    default: return c >= S_GU16 && c <= S_GD ? G_TYPED | G_READ : G_TYPED;
    }
}
int own_groups(const std::string &p)
{
    if (p == "C09")
        return G_RAW | G_SEEK | G_U8 | G_MISC | G_LIFE;
    if (p == "C10")
        return G_TYPED | G_U8 | G_ENDIAN;
    if (p == "C11")
        return G_PTR | G_ALIGN;
    if (p == "C12")
        return G_STR;
    if (p == "C13")
        return G_READ | G_LIFE;
    return 0xffff;
}

// ------------------------------------------------------------------ text
int op_index(const char *name)
{
    for (int i = 0; i < n_ops; i++)
        if (!strcmp(ops[i].name, name))
            return i;
    return -1;
}
static const char *const life_name[] = {"new", "new_from_memory", "copy", "assign", "delete", "crash_reload", "scribble_source", "free_source"};
std::string code_name(int c) { return c >= 100 ? life_name[c - 100] : scode_name[c]; }
int         code_index(const std::string &n)
{
    for (int i = 0; i < S_NCODES; i++)
        if (n == scode_name[i])
            return i;
    for (int i = 0; i < 8; i++)
        if (n == life_name[i])
            return 100 + i;
    return -1;
}
static std::string hex(const std::vector<uint8_t> &b)
{
    static const char *d = "0123456789abcdef";
    std::string        s;
    for (uint8_t c : b)
    {
        s += d[c >> 4];
        s += d[c & 15];
    }
    return s.empty() ? "-" : s;
}
static std::vector<uint8_t> unhex(const std::string &s)
{
    std::vector<uint8_t> b;
    if (s == "-")
        return b;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        b.push_back((uint8_t)(v(s[i]) * 16 + v(s[i + 1])));
    return b;
}
static void item_text(std::ostringstream &o, const Item &it)
{
    if (it.type == IT_CALL)
        o << "  call op=" << ops[it.op].name << " args=" << it.aseed << " damage=" << it.dseed << " twin=" << it.twin
          << " phase=" << it.phase;
    if (it.type == IT_CALL && it.rep)
        o << " repeat=" << it.rep << " vary=" << it.repv;
    if (it.type != IT_CALL)
        o << "  " << (it.type == IT_STREAM ? "stream" : it.type == IT_ICC ? "icc" : "solve") << " sid=" << it.sid << " sid2=" << it.sid2
          << " code=" << (it.type == IT_STREAM ? code_name(it.code) : "-") << " u=" << it.u << " n=" << it.n << " buf=" << hex(it.buf);
    o << " chk=" << it.chk << " leak=" << it.leak << "\n";
    if (it.fail_n)
        o << "    fail-allocation nth=" << it.fail_n << " persistent=" << it.fail_persist << "\n";
    if (it.stall_ev >= 0)
        o << "    stall access=" << it.stall_ev << "\n";
    if (it.stall_sync)
        o << "    stall-sync nth=" << it.stall_sync << "\n";
    if (it.intr_sync)
        o << "    intr-sync nth=" << it.intr_sync << "\n";
    for (auto &i : it.intr)
    {
        o << "    interrupt access=" << i.ev << " calls=" << i.calls.size() << "\n";
        for (auto &c : i.calls)
            o << "      nested op=" << ops[c.op].name << " args=" << c.aseed << "\n";
    }
    for (auto &s : it.sw)
        o << "    switch access=" << s.ev << " to=" << s.to << "\n";
}
std::string plan_text(const Plan &p)
{
    std::ostringstream o;
    o << "SIMPLAN 1\nprop " << p.prop << "\nflavour " << p.flavour << "\n";
    o << "env heap=" << p.env.heap_fill << " stack=" << p.env.stack_fill << " reuse=" << p.env.reuse << " layout=" << p.env.layout
      << " errno=" << p.env.err << " fpflags=" << p.env.fpflags << " world=" << p.env.world << " io=" << p.env.iomode << " fpin=" << p.env.fpin << "\n";
    o << "sched mode=" << p.sg.mode << " gap=" << p.sg.gap << " boost=" << p.sg.boost << " seed=" << p.sg.seed << " max=" << p.sg.maxsw << "\n";
    o << "opts race=" << p.race << " shared=" << p.shared << " hashes=" << p.hashes << " fpmode=" << p.fpmode << " iocheck=" << p.iocheck
      << " phases=" << p.phases << " asthread=" << p.asthread << " stepcap=" << p.step_cap << " tidy=" << p.tidy << " stackcap=" << p.stack_cap << "\n";
    if (!p.work.empty())
        o << "work " << p.work << "\n";
    {
        std::set<uint32_t> used;
        auto               note = [&](uint32_t a) {
            if (a & OVBIT)
                used.insert(((a & ~OVBIT) >> 4) % Ov::COUNT);
        };
        auto list = [&](const std::vector<Item> &l) {
            for (auto &i : l)
                if (i.type == IT_CALL)
                {
                    note(i.aseed);
                    for (auto &k : i.intr)
                        for (auto &c : k.calls)
                            note(c.aseed);
                }
        };
        list(p.pro);
        for (auto &t : p.th)
            list(t);
        for (uint32_t id : used)
        {
            const Ov &v = ovs[id];
            o << "values id=" << id << " of=" << v.aseed << " count=" << v.n;
            for (uint32_t i = 0; i < v.n; i++)
            {
                uint32_t b;
                memcpy(&b, &v.v[i], 4);
                o << " arg" << i << "=" << v.at[i] << " bits" << i << "=" << b;
            }
            o << "\n";
        }
    }
    if (!p.pro.empty())
    {
        o << "prologue\n";
        for (auto &i : p.pro)
            item_text(o, i);
    }
    for (size_t t = 0; t < p.th.size(); t++)
    {
        o << "thread " << t << "\n";
        for (auto &i : p.th[t])
            item_text(o, i);
    }
    o << "end\n";
    if (!p.xkind.empty())
        o << "expect kind=" << p.xkind << " hash=" << p.xhash << "\n";
    if (!p.note.empty())
        o << "# " << p.note << "\n";
    return o.str();
}
struct KV
{
    std::vector<std::pair<std::string, std::string>> v;
    std::string get(const char *k) const
    {
        for (auto &p : v)
            if (p.first == k)
                return p.second;
        return "0";
    }
    uint64_t u(const char *k) const { return strtoull(get(k).c_str(), nullptr, 10); }
};
bool plan_parse(const std::string &text, Plan &p, std::string &err)
{
    std::istringstream in(text);
    std::string        line;
    std::vector<Item> *cur = nullptr;
    p                      = Plan();
    bool ended             = false;
    while (std::getline(in, line))
    {
        std::istringstream ls(line);
        std::string        w, tok;
        if (!(ls >> w) || w[0] == '#')
            continue;
        KV kv;
        std::vector<std::string> pos;
        while (ls >> tok)
        {
            const size_t eq = tok.find('=');
            if (eq == std::string::npos)
                pos.push_back(tok);
            else
                kv.v.push_back({tok.substr(0, eq), tok.substr(eq + 1)});
        }
        if (w == "SIMPLAN")
            continue;
        else if (w == "prop")
            p.prop = pos[0];
        else if (w == "work")
            p.work = pos[0];
        else if (w == "flavour")
            p.flavour = pos[0];
        else if (w == "env")
        {
            p.env.heap_fill = (uint32_t)kv.u("heap"), p.env.stack_fill = (uint32_t)kv.u("stack"), p.env.reuse = (uint32_t)kv.u("reuse");
            p.env.layout = (uint32_t)kv.u("layout"), p.env.err = (uint32_t)kv.u("errno"), p.env.fpflags = (uint32_t)kv.u("fpflags");
            p.env.world = kv.u("world"), p.env.iomode = (uint32_t)kv.u("io"), p.env.fpin = (uint32_t)kv.u("fpin");
        }
        else if (w == "sched")
        {
            p.sg.mode = (int)kv.u("mode"), p.sg.gap = (uint32_t)kv.u("gap"), p.sg.boost = (uint32_t)kv.u("boost");
            p.sg.seed = kv.u("seed"), p.sg.maxsw = (uint32_t)kv.u("max");
        }
        else if (w == "opts")
        {
            p.race = kv.u("race"), p.shared = kv.u("shared"), p.hashes = kv.u("hashes"), p.fpmode = kv.u("fpmode");
            p.iocheck = kv.u("iocheck"), p.phases = kv.u("phases"), p.asthread = (int)kv.u("asthread"), p.step_cap = kv.u("stepcap");
            p.tidy = kv.u("tidy"), p.stack_cap = kv.u("stackcap");
        }
        else if (w == "values")
        {
            Ov &v   = ovs[kv.u("id") % Ov::COUNT];
            v.aseed = (uint32_t)kv.u("of"), v.n = (uint32_t)kv.u("count");
            for (uint32_t i = 0; i < v.n && i < Ov::MAX; i++)
            {
                const uint32_t b = (uint32_t)kv.u(("bits" + std::to_string(i)).c_str());
                v.at[i]          = (uint32_t)kv.u(("arg" + std::to_string(i)).c_str());
                memcpy(&v.v[i], &b, 4);
            }
        }
        else if (w == "prologue")
            cur = &p.pro;
        else if (w == "thread")
        {
            p.th.push_back({});
            cur = &p.th.back();
        }
        else if (w == "call" || w == "stream" || w == "icc" || w == "solve")
        {
            if (!cur)
            {
                err = "item outside a thread";
                return false;
            }
            Item it;
            it.chk  = (int)kv.u("chk");
            it.leak = kv.u("leak");
            if (w == "call")
            {
                it.op = op_index(kv.get("op").c_str());
                if (it.op < 0)
                {
                    err = "unknown operation " + kv.get("op");
                    return false;
                }
                it.aseed = (uint32_t)kv.u("args"), it.dseed = (uint32_t)kv.u("damage"), it.twin = kv.u("twin"), it.phase = (int)kv.u("phase"), it.rep = (uint32_t)kv.u("repeat"), it.repv = kv.u("vary");
            }
            else
            {
                it.type = w == "stream" ? IT_STREAM : w == "icc" ? IT_ICC : IT_COR;
                it.sid = (int)kv.u("sid"), it.sid2 = (int)kv.u("sid2"), it.u = kv.u("u"), it.n = kv.u("n");
                it.buf = unhex(kv.get("buf"));
                if (it.type == IT_STREAM)
                {
                    it.code = code_index(kv.get("code"));
                    if (it.code < 0)
                    {
                        err = "unknown stream operation " + kv.get("code");
                        return false;
                    }
                }
            }
            cur->push_back(it);
        }
        else if (w == "fail-allocation")
            cur->back().fail_n = (uint32_t)kv.u("nth"), cur->back().fail_persist = kv.u("persistent");
        else if (w == "stall")
            cur->back().stall_ev = (int64_t)kv.u("access");
        else if (w == "stall-sync")
            cur->back().stall_sync = (uint32_t)kv.u("nth");
        else if (w == "intr-sync")
            cur->back().intr_sync = (uint32_t)kv.u("nth");
        else if (w == "interrupt")
            cur->back().intr.push_back({(uint32_t)kv.u("access"), {}});
        else if (w == "nested")
        {
            Nested n;
            n.op = op_index(kv.get("op").c_str());
            if (n.op < 0)
            {
                err = "unknown operation " + kv.get("op");
                return false;
            }
            n.aseed = (uint32_t)kv.u("args");
            cur->back().intr.back().calls.push_back(n);
        }
        else if (w == "switch")
            cur->back().sw.push_back({(uint32_t)kv.u("access"), (int)kv.u("to")});
        else if (w == "expect")
            p.xkind = kv.get("kind"), p.xhash = kv.u("hash");
        else if (w == "end")
            ended = true;
        else
        {
            err = "unknown line: " + line;
            return false;
        }
    }
    if (!ended)
        err = "no end line";
    return ended;
}
} // namespace sim
