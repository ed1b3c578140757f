#include "ops.h"
AnyReq AndReq(const AnyReq& a, const AnyReq& b) { return std::visit([](const auto& x, const auto& y) -> AnyReq { return x && y; }, a, b); }
AnyReq OrReq(const AnyReq& a, const AnyReq& b) { return std::visit([](const auto& x, const auto& y) -> AnyReq { return x || y; }, a, b); }
VaultOperationResult RunReq(const Vault& v, const AnyReq& r, VaultRecordSet& res) { return std::visit([&](const auto& x) { return v.Request(x, res); }, r); }
VaultOperationResult RunReq(const VaultRecordSet& v, const AnyReq& r, VaultRecordSet& res) { return std::visit([&](const auto& x) { return v.Request(x, res); }, r); }
