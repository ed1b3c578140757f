// One object per key type performs every typed call of the public API.
#pragma once
#include <variant>
#include <optional>
#include "types.h"
#include "MVault.h"

using mvlt::Vault; using mvlt::VaultRecordSet; using mvlt::VaultRecordRef; using mvlt::VaultOperationResult;
using mvlt::VaultRequestType; using mvlt::VaultRequest; using mvlt::VaultParamInput;
using Pred = std::function<bool(const VaultRecordRef&)>;

using AnyReq = std::variant<VaultRequest<VaultRequestType::Equal>, VaultRequest<VaultRequestType::Greater>,
    VaultRequest<VaultRequestType::GreaterOrEqual>, VaultRequest<VaultRequestType::Less>,
    VaultRequest<VaultRequestType::LessOrEqual>, VaultRequest<VaultRequestType::And>, VaultRequest<VaultRequestType::Or>>;
AnyReq AndReq(const AnyReq& a, const AnyReq& b);
AnyReq OrReq(const AnyReq& a, const AnyReq& b);
VaultOperationResult RunReq(const Vault& v, const AnyReq& r, VaultRecordSet& res);
VaultOperationResult RunReq(const VaultRecordSet& v, const AnyReq& r, VaultRecordSet& res);

// A vault or a record set as the source of a query
struct Host { Vault* V = nullptr; VaultRecordSet* S = nullptr; };
enum class Kind { Eq, Gt, Ge, Lt, Le, In };
inline Kind KindOf(const std::string& s)
{
    return s == "Eq" ? Kind::Eq : s == "Gt" ? Kind::Gt : s == "Ge" ? Kind::Ge : s == "Lt" ? Kind::Lt : s == "Le" ? Kind::Le : Kind::In;
}

struct TypeOps
{
    virtual ~TypeOps() {}
    virtual const char* Name() = 0;
    virtual std::type_index Type() = 0;
    virtual int DomSize() = 0;
    virtual std::string Str(int n) = 0;             // ToString of the value
    virtual bool AddKey(Vault&, const std::string&, int n) = 0;
    virtual VaultOperationResult AddUKey(Vault&, const std::string&) = 0;
    virtual VaultOperationResult AddUKeyF(Vault&, const std::string&, const std::vector<int>& vals, const std::function<void(std::size_t)>& hook) = 0;
    virtual VaultOperationResult UpdKey(Vault&, const std::string&, int n) = 0;
    virtual VaultOperationResult GetKeyValue(Host, const std::string&, int in, int& out) = 0;
    virtual VaultOperationResult GetRecord(Host, const std::string&, int n, VaultRecordRef&) = 0;
    virtual VaultOperationResult GetRecords(Host, const std::string&, int n, std::vector<VaultRecordRef>&, std::optional<std::size_t> amt) = 0;
    virtual VaultOperationResult EraseKV(Vault&, const std::string&, int n) = 0;
    virtual VaultOperationResult EraseMany(Vault&, const std::string&, int n, std::optional<std::size_t> amt) = 0;
    virtual VaultOperationResult SRemKV(VaultRecordSet&, const std::string&, int n) = 0;
    virtual VaultOperationResult SRemMany(VaultRecordSet&, const std::string&, int n, std::optional<std::size_t> amt) = 0;
    virtual VaultOperationResult SetData(VaultRecordRef&, const std::string&, int n) = 0;
    virtual VaultOperationResult GetData(const VaultRecordRef&, const std::string&, int in, int& out) = 0;
    virtual VaultOperationResult Req(Host, Kind, const std::string&, int n, int n2, bool ib, bool ie, std::optional<std::size_t> amt, const Pred* pred, VaultRecordSet&) = 0;
    virtual AnyReq Leaf(Kind, const std::string&, int n, const Pred* pred) = 0;
    virtual VaultParamInput Param(int n) = 0;
    virtual bool Compare(Kind, int a, int b) = 0;   // the operators of the type itself
};
TypeOps* MakeOps_int(); TypeOps* MakeOps_str(); TypeOps* MakeOps_dbl(); TypeOps* MakeOps_bool(); TypeOps* MakeOps_u64(); TypeOps* MakeOps_cus();
