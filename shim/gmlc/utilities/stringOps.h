#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::utilities {
using stringVector = std::vector<std::string>;
void makeLowerCase(std::string& s);
void makeUpperCase(std::string& s);
std::string convertToLowerCase(std::string_view s);
std::string convertToUpperCase(std::string_view s);
std::string randomString(std::string::size_type length);
std::string characterReplace(std::string_view source, char key, std::string_view repStr);
namespace stringOps {
    inline const std::string whiteSpaceCharacters(" \t\n\r\0\v\f", 7);
    inline const std::string default_delim_chars(",;");
    inline const std::string default_quote_chars("'\"`");
    inline const std::string default_bracket_chars("[{(<'\"`");
    enum class delimiter_compression { on, off };
    stringVector splitline(std::string_view line,
                           std::string_view delimiters = default_delim_chars,
                           delimiter_compression compression = delimiter_compression::off);
    stringVector splitline(std::string_view line,
                           char delim,
                           delimiter_compression compression = delimiter_compression::off);
    stringVector splitlineQuotes(std::string_view line,
                                 std::string_view delimiters = default_delim_chars,
                                 std::string_view quoteChars = default_quote_chars,
                                 delimiter_compression compression = delimiter_compression::off);
    stringVector splitlineBracket(std::string_view line,
                                  std::string_view delimiters = default_delim_chars,
                                  std::string_view bracketChars = default_bracket_chars,
                                  delimiter_compression compression = delimiter_compression::off);
    void trimString(std::string& input, std::string_view trimCharacters = whiteSpaceCharacters);
    std::string trim(std::string_view input, std::string_view trimCharacters = whiteSpaceCharacters);
    std::string removeQuotes(std::string_view str);
    std::string removeBrackets(std::string_view str);
    std::string merge(std::string_view, std::string_view) = delete;
}  // namespace stringOps
}  // namespace gmlc::utilities
