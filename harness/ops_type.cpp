// Compiled once per type: -DOPS_T=<type> -DOPS_F=MakeOps_<name>
#include "ops.h"
template <class T>
struct Impl : TypeOps
{
    const char* Name() override { return Dom<T>::Name(); }
    std::type_index Type() override { return typeid(T); }
    int DomSize() override { return static_cast<int>(Dom<T>::Values().size()); }
    std::string Str(int n) override { return mvlt::ToString(ValOf<T>(n)); }
    bool AddKey(Vault& v, const std::string& k, int n) override { return v.AddKey(k, ValOf<T>(n)); }
    VaultOperationResult AddUKey(Vault& v, const std::string& k) override { return v.template AddUniqueKey<T>(k); }
    VaultOperationResult AddUKeyF(Vault& v, const std::string& k, const std::vector<int>& vals, const std::function<void(std::size_t)>& hook) override
    {
        std::function<T(const std::size_t&, const VaultRecordRef&)> f = [&](const std::size_t& c, const VaultRecordRef&)
        { if (hook) hook(c); return ValOf<T>(vals[c % vals.size()]); };
        return v.template AddUniqueKey<T>(k, f);
    }
    VaultOperationResult UpdKey(Vault& v, const std::string& k, int n) override { return v.UpdateKey(k, ValOf<T>(n)); }
    VaultOperationResult GetKeyValue(Host h, const std::string& k, int in, int& out) override
    {
        T x = ValOf<T>(in);
        VaultOperationResult r = h.V ? h.V->GetKeyValue(k, x) : h.S->GetKeyValue(k, x);
        out = Idx<T>(x);
        return r;
    }
    VaultOperationResult GetRecord(Host h, const std::string& k, int n, VaultRecordRef& r) override
    { T x = ValOf<T>(n); return h.V ? h.V->GetRecord(k, x, r) : h.S->GetRecord(k, x, r); }
    VaultOperationResult GetRecords(Host h, const std::string& k, int n, std::vector<VaultRecordRef>& r, std::optional<std::size_t> amt) override
    {
        T x = ValOf<T>(n);
        if (amt) return h.V ? h.V->GetRecords(k, x, r, *amt) : h.S->GetRecords(k, x, r, *amt);
        return h.V ? h.V->GetRecords(k, x, r) : h.S->GetRecords(k, x, r);
    }
    VaultOperationResult EraseKV(Vault& v, const std::string& k, int n) override { return v.EraseRecord(k, ValOf<T>(n)); }
    VaultOperationResult EraseMany(Vault& v, const std::string& k, int n, std::optional<std::size_t> amt) override
    { return amt ? v.EraseRecords(k, ValOf<T>(n), *amt) : v.EraseRecords(k, ValOf<T>(n)); }
    VaultOperationResult SRemKV(VaultRecordSet& s, const std::string& k, int n) override { return s.RemoveRecord(k, ValOf<T>(n)); }
    VaultOperationResult SRemMany(VaultRecordSet& s, const std::string& k, int n, std::optional<std::size_t> amt) override
    { return amt ? s.RemoveRecords(k, ValOf<T>(n), *amt) : s.RemoveRecords(k, ValOf<T>(n)); }
    VaultOperationResult SetData(VaultRecordRef& r, const std::string& k, int n) override { return r.SetData(k, ValOf<T>(n)); }
    VaultOperationResult GetData(const VaultRecordRef& r, const std::string& k, int in, int& out) override
    {
        T x = ValOf<T>(in);
        VaultOperationResult res = r.GetData(k, x);
        out = Idx<T>(x);
        return res;
    }
    template <class H>
    VaultOperationResult ReqOn(const H& h, Kind kind, const std::string& k, const T& x, const T& y, bool ib, bool ie, std::optional<std::size_t> amt, const Pred* p, VaultRecordSet& s)
    {
        const std::size_t a = amt ? *amt : static_cast<std::size_t>(-1);
#define ONE(F) (p ? h.F(k, x, s, a, *p) : amt ? h.F(k, x, s, a) : h.F(k, x, s))
        switch (kind)
        {
        case Kind::Eq: return ONE(RequestEqual);
        case Kind::Gt: return ONE(RequestGreater);
        case Kind::Ge: return ONE(RequestGreaterOrEqual);
        case Kind::Lt: return ONE(RequestLess);
        case Kind::Le: return ONE(RequestLessOrEqual);
        default:
            if (p) return h.RequestInterval(k, x, y, s, ib, ie, a, *p);
            if (amt) return h.RequestInterval(k, x, y, s, ib, ie, a);
            if (ib && ie) return h.RequestInterval(k, x, y, s);
            return h.RequestInterval(k, x, y, s, ib, ie);
        }
#undef ONE
    }
    VaultOperationResult Req(Host h, Kind kind, const std::string& k, int n, int n2, bool ib, bool ie, std::optional<std::size_t> amt, const Pred* p, VaultRecordSet& s) override
    {
        T x = ValOf<T>(n), y = ValOf<T>(n2);
        return h.V ? ReqOn(*h.V, kind, k, x, y, ib, ie, amt, p, s) : ReqOn(*h.S, kind, k, x, y, ib, ie, amt, p, s);
    }
    AnyReq Leaf(Kind kind, const std::string& k, int n, const Pred* p) override
    {
        T x = ValOf<T>(n);
#define ONE(F) return p ? AnyReq(mvlt::F(k, x, *p)) : AnyReq(mvlt::F(k, x))
        switch (kind)
        {
        case Kind::Gt: ONE(Greater);
        case Kind::Ge: ONE(GreaterOrEqual);
        case Kind::Lt: ONE(Less);
        case Kind::Le: ONE(LessOrEqual);
        default: ONE(Equal);
        }
#undef ONE
    }
    VaultParamInput Param(int n) override { T x = ValOf<T>(n); return VaultParamInput(x); }
    bool Compare(Kind kind, int a, int b) override
    {
        T x = ValOf<T>(a), y = ValOf<T>(b);
        switch (kind)
        {
        case Kind::Gt: return y < x;
        case Kind::Ge: return !(x < y);
        case Kind::Lt: return x < y;
        case Kind::Le: return !(y < x);
        default: return x == y;
        }
    }
};
TypeOps* OPS_F() { static Impl<OPS_T> o; return &o; }
