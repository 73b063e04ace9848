// Translation unit that instantiates the whole library for every adapter.
// It is only parsed and analysed; it is never compiled to code or executed.
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/utils/rapidjson_utils.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
#include <valijson/adapters/json11_adapter.hpp>
#include <valijson/adapters/jsoncpp_adapter.hpp>
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/adapters/picojson_adapter.hpp>
#include <valijson/adapters/poco_json_adapter.hpp>
#include <valijson/adapters/property_tree_adapter.hpp>
#include <valijson/adapters/qtjson_adapter.hpp>
#include <valijson/adapters/qvariant_adapter.hpp>
#include <valijson/adapters/std_string_adapter.hpp>
#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include <valijson/utils/boost_json_utils.hpp>
#include <valijson/utils/file_utils.hpp>
#include <valijson/utils/json11_utils.hpp>
#include <valijson/utils/jsoncpp_utils.hpp>
#include <valijson/utils/nlohmann_json_utils.hpp>
#include <valijson/utils/picojson_utils.hpp>
#include <valijson/utils/poco_json_utils.hpp>
#include <valijson/utils/property_tree_utils.hpp>
#include <valijson/utils/qtjson_utils.hpp>
#include <valijson/utils/qvariant_utils.hpp>
#include <valijson/utils/utf8_utils.hpp>
#include <valijson/utils/yaml_cpp_utils.hpp>
#include <valijson/constraint_builder.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/schema_registry.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>

namespace driver {
using namespace valijson;

template<typename A> void drive(const typename adapters::AdapterTraits<A>::DocumentType &d)
{
    Schema schema;
    SchemaParser parser;
    A a(d);
    typename SchemaParser::FunctionPtrs<A>::FetchDoc fetch;
    typename SchemaParser::FunctionPtrs<A>::FreeDoc freeDoc;
    parser.populateSchema(a, schema, fetch, freeDoc);
    parser.populateSchema(a, schema);
    (void)internal::json_pointer::resolveJsonPointer(a, std::string("/x"));
    Validator v;
    ValidationResults r;
    v.validate(schema, a, &r);
    A dflt;
    adapters::FrozenValue *fv = a.freeze();
    fv->equalTo(dflt, true);
    delete fv->clone();
    delete fv;
    for (const auto &e : a.getArray()) { (void)e; }
    for (const auto &m : a.getObject()) { (void)m.first; }
    auto it = a.asArray().begin();
    it.advance(1); it++; ++it; (void)(it == a.asArray().end()); (void)(it != a.asArray().end()); (void)it->isNull();
    auto io = a.asObject().begin();
    io++; ++io; (void)(io == a.asObject().end()); (void)(io != a.asObject().end()); (void)io->first;
    bool b; int64_t i; double dd; std::string s;
    a.asBool(b); a.asInteger(i); a.asDouble(dd); a.asString(s);
    (void)a.getArraySize(); (void)a.getObjectSize(); (void)a.getNumber();
}

inline void all(const rapidjson::Document &rj, const boost::json::value &bj, const json11::Json &j11,
         const Json::Value &jc, const nlohmann::json &nj, const picojson::value &pj,
         const Poco::Dynamic::Var &po, const boost::property_tree::ptree &pt,
         const QJsonValue &qj, const QVariant &qv, const YAML::Node &yn)
{
    rapidjson::Document loaded;
    (void)utils::loadDocument(std::string(), loaded);
    drive<adapters::RapidJsonAdapter>(rj);
    drive<adapters::BoostJsonAdapter>(bj);
    drive<adapters::Json11Adapter>(j11);
    drive<adapters::JsonCppAdapter>(jc);
    drive<adapters::NlohmannJsonAdapter>(nj);
    drive<adapters::PicoJsonAdapter>(pj);
    drive<adapters::PocoJsonAdapter>(po);
    drive<adapters::PropertyTreeAdapter>(pt);
    drive<adapters::QtJsonAdapter>(qj);
    drive<adapters::QtVariantAdapter>(qv);
    drive<adapters::YamlCppAdapter>(yn);
}
}
