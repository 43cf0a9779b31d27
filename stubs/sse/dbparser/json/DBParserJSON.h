// stand-in for the opensse database parser (not installed here)
#pragma once
#include <functional>
#include <list>
#include <map>
#include <string>
namespace dbparser {
class DBParserJSON
{
public:
    explicit DBParserJSON(const std::string&) {}
    void addCallbackList(std::function<void(const std::string&, const std::list<unsigned>&)> c) { cb = c; }
    void parse()
    {
        for (auto& p : content()) cb(p.first, p.second);
    }
    static std::map<std::string, std::list<unsigned>>& content() { static std::map<std::string, std::list<unsigned>> c; return c; }
private:
    std::function<void(const std::string&, const std::list<unsigned>&)> cb;
};
} // namespace dbparser
namespace sse { namespace dbparser = ::dbparser; }
