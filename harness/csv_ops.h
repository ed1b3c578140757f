// Typed calls of the CSV driver, one object per key type
#pragma once
#include <string>
#include <typeindex>
#include "MVault.h"
struct CsvOps
{
    virtual ~CsvOps() {}
    virtual const char* Name() = 0;
    virtual std::type_index Type() = 0;
    virtual bool Add(mvlt::Vault&, const std::string& key, bool unique, const std::string& def) = 0;
    virtual bool Param(std::vector<std::pair<std::string, mvlt::VaultParamInput>>&, const std::string& key, const std::string& text) = 0;
    virtual void Bind(mvlt::Vault&, const std::string& key, mvlt::VaultRecordSet&) = 0;
    // Canonical text of the value. x: what is inconsistent
    virtual std::string Cell(const mvlt::VaultRecordRef&, const std::string& key, std::string& x) = 0;
};
CsvOps* MakeCsv_str(); CsvOps* MakeCsv_bool(); CsvOps* MakeCsv_i16(); CsvOps* MakeCsv_u16(); CsvOps* MakeCsv_i32(); CsvOps* MakeCsv_u32();
CsvOps* MakeCsv_i64(); CsvOps* MakeCsv_u64(); CsvOps* MakeCsv_f32(); CsvOps* MakeCsv_f64();
