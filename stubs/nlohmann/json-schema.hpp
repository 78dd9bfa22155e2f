// Declaration-only stand-in for the json-schema-validator library, which is not
// installed here.  Only used so that the static analyser can parse
// src/Auxillary/json_schema/schema_validation.cpp; nothing is ever linked.
#pragma once
#include <nlohmann/json.hpp>
#include <string>
namespace nlohmann::json_schema {
  class error_handler {
  public:
    virtual ~error_handler() = default;
    virtual void
    error(const json::json_pointer &, const json &, const std::string &)
        = 0;
  };
  class basic_error_handler : public error_handler {
    bool error_{false};
  public:
    void error(
        const json::json_pointer &, const json &, const std::string &) override {
      error_ = true;
    }
    operator bool() const { return error_; }
  };
  class json_validator {
  public:
    json_validator();
    explicit json_validator(const json &);
    void set_root_schema(const json &);
    json validate(const json &) const;
    json validate(const json &, error_handler &) const;
  };
} // namespace nlohmann::json_schema
