// Declarations-only stand-in for json11's public header (json11 is not
// installed here).  Only parsed, never compiled to code or linked.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <initializer_list>
namespace json11 {
enum JsonParse { STANDARD, COMMENTS };
class JsonValue;
class Json final {
public:
    enum Type { NUL, NUMBER, BOOL, STRING, ARRAY, OBJECT };
    typedef std::vector<Json> array;
    typedef std::map<std::string, Json> object;
    Json() noexcept;
    Json(std::nullptr_t) noexcept;
    Json(double value);
    Json(int value);
    Json(bool value);
    Json(const std::string &value);
    Json(std::string &&value);
    Json(const char * value);
    Json(const array &values);
    Json(array &&values);
    Json(const object &values);
    Json(object &&values);
    Json(void *) = delete;
    Type type() const;
    bool is_null() const;
    bool is_number() const;
    bool is_bool() const;
    bool is_string() const;
    bool is_array() const;
    bool is_object() const;
    double number_value() const;
    int int_value() const;
    bool bool_value() const;
    const std::string &string_value() const;
    const array &array_items() const;
    const object &object_items() const;
    const Json & operator[](size_t i) const;
    const Json & operator[](const std::string &key) const;
    void dump(std::string &out) const;
    std::string dump() const;
    static Json parse(const std::string & in, std::string & err, JsonParse strategy = JsonParse::STANDARD);
    bool operator== (const Json &rhs) const;
    bool operator<  (const Json &rhs) const;
    bool operator!= (const Json &rhs) const;
private:
    std::shared_ptr<JsonValue> m_ptr;
};
}
