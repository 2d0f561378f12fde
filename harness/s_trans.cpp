// Survey only (no property): translators between values and messages. On this tree most runs fail, see DESIGN.md
#include "fed.hpp"

#include "helics/application_api/Translator.hpp"
#include "helics/application_api/TranslatorOperations.hpp"
#include "helics/application_api/ValueConverter.hpp"

#include <nlohmann/json.hpp>

#include <algorithm>
#include <map>

namespace {
using namespace helics;
using chk::flip;
using chk::pick;

constexpr int64_t MS = 1'000'000;

struct Translators {
    struct Event {
        int64_t at{0};
        std::string text;
        int source{0};  // publication or endpoint
        int order{0};
    };
    struct Tr {
        bool toMessage{true};
        int kind{0};  // 0 JSON, 1 binary, 2 custom
        int owner{0};
        bool early{false};  // registered before the interfaces of its federate
        std::vector<int> from;  // federates: publications or endpoints
        std::vector<int> to;  // federates: endpoints or inputs
        std::vector<int> fromSide, toSide;  // who names the link: 0 the translator, 1 the interface
        std::vector<Event> events;
    };
    int n{0};
    fx::Deployment d;
    std::vector<Tr> tr;
    std::vector<int64_t> period;  // ms
    std::vector<std::vector<int>> sends;  // federate: step -> number of events
    int64_t end{0};  // ms

    void generate()
    {
        n = 2 + static_cast<int>(pick(3));
        d = fx::pickDeployment(n, fx::ANY, 3);
        end = 6 * static_cast<int64_t>(1 + pick(4));
        for (int i = 0; i < n; ++i) {
            period.push_back(1 + static_cast<int64_t>(pick(3)));
            sends.emplace_back();
            for (int64_t t = 0; t <= end; ++t) {
                sends.back().push_back(flip(1, 3) ? 0 : flip(3, 4) ? 1 : 2 + static_cast<int>(pick(2)));
            }
        }
        const int m = 1 + static_cast<int>(pick(3));
        tr.resize(static_cast<size_t>(m));
        for (auto& x : tr) {
            x.toMessage = flip(1, 2);
            x.kind = static_cast<int>(pick(3));
            x.owner = static_cast<int>(pick(static_cast<uint64_t>(n)));
            x.early = flip(1, 2);
            const auto from = 1 + pick(2);
            const auto to = 1 + pick(2);
            for (uint64_t k = 0; k < from; ++k) {
                const int f = static_cast<int>(pick(static_cast<uint64_t>(n)));
                if (std::find(x.from.begin(), x.from.end(), f) == x.from.end()) {
                    x.from.push_back(f);
                    x.fromSide.push_back(static_cast<int>(pick(2)));
                }
            }
            for (uint64_t k = 0; k < to; ++k) {
                const int f = static_cast<int>(pick(static_cast<uint64_t>(n)));
                if (std::find(x.to.begin(), x.to.end(), f) == x.to.end() && std::find(x.from.begin(), x.from.end(), f) == x.from.end()) {
                    x.to.push_back(f);
                    x.toSide.push_back(static_cast<int>(pick(2)));
                }
            }
            if (x.to.empty()) {
                int f = 0;
                while (std::find(x.from.begin(), x.from.end(), f) != x.from.end()) {
                    ++f;
                }
                if (f >= n) {
                    x.from.pop_back();
                    x.fromSide.pop_back();
                    f = 0;
                    while (std::find(x.from.begin(), x.from.end(), f) != x.from.end()) {
                        ++f;
                    }
                }
                x.to.push_back(f);
                x.toSide.push_back(static_cast<int>(pick(2)));
            }
        }
    }
    [[nodiscard]] std::string str() const
    {
        std::string s = d.str() + " to " + std::to_string(end) + " ms, periods";
        for (auto p : period) {
            s += " " + std::to_string(p);
        }
        for (size_t k = 0; k < tr.size(); ++k) {
            auto& x = tr[k];
            static const char* kinds[] = {"json", "binary", "custom"};
            s += " | t" + std::to_string(k) + "@f" + std::to_string(x.owner) + (x.early ? " early " : " ") + kinds[x.kind];
            s += x.toMessage ? " pubs" : " endpoints";
            for (size_t q = 0; q < x.from.size(); ++q) {
                s += " f" + std::to_string(x.from[q]) + (x.fromSide[q] == 0 ? "<" : "");
            }
            s += x.toMessage ? " to endpoints" : " to inputs";
            for (size_t q = 0; q < x.to.size(); ++q) {
                s += " f" + std::to_string(x.to[q]) + (x.toSide[q] == 0 ? "<" : "");
            }
        }
        return s;
    }
    static std::string nm(const char* what, size_t t, int f) { return std::string(what) + std::to_string(t) + "_" + std::to_string(f); }
    /** the data of the message a value becomes, and the text in a message */
    static std::string read(const Tr& x, std::string_view data)
    {
        switch (x.kind) {
            case 0: {
                auto js = nlohmann::json::parse(data, nullptr, false);
                if (js.is_discarded() || !js.is_object() || !js.contains("value") || !js["value"].is_string()) {
                    return "not json: " + std::string(data);
                }
                return js["value"].get<std::string>();
            }
            case 1: {
                const SmallBuffer b(data);
                std::string text;
                valueExtract(b, DataType::HELICS_STRING, text);
                return text;
            }
            default:
                return data.substr(0, 4) == "msg:" ? std::string(data.substr(4)) : "no tag: " + std::string(data);
        }
    }
    static SmallBuffer write(const Tr& x, const std::string& text)
    {
        switch (x.kind) {
            case 0: {
                nlohmann::json js;
                js["type"] = "string";
                js["value"] = text;
                return SmallBuffer(js.dump());
            }
            case 1:
                return typeConvert(DataType::HELICS_STRING, std::string_view(text));
            default:
                return SmallBuffer("val:" + text);
        }
    }
    void makeTranslator(Federate& fed, size_t t)
    {
        auto& x = tr[t];
        auto& it = x.kind == 0 ? fed.registerGlobalTranslator(static_cast<int>(TranslatorTypes::JSON), "t" + std::to_string(t)) :
            x.kind == 1        ? fed.registerGlobalTranslator(static_cast<int>(TranslatorTypes::BINARY), "t" + std::to_string(t)) :
                                 fed.registerGlobalTranslator("t" + std::to_string(t));
        if (x.kind == 2) {
            auto op = std::make_shared<CustomTranslatorOperator>();
            op->setToMessageFunction([](const SmallBuffer& v) {
                std::string text;
                valueExtract(v, DataType::HELICS_STRING, text);
                auto m = std::make_unique<Message>();
                m->data = "msg:" + text;
                return m;
            });
            op->setToValueFunction([](std::unique_ptr<Message> m) {
                auto text = std::string(m->data.to_string());
                return typeConvert(DataType::HELICS_STRING, std::string_view(text.substr(0, 4) == "val:" ? text.substr(4) : "no tag: " + text));
            });
            it.setOperator(op);
        }
        for (size_t q = 0; q < x.from.size(); ++q) {
            if (x.fromSide[q] == 0) {
                if (x.toMessage) {
                    it.addPublication(nm("p", t, x.from[q]));
                } else {
                    it.addSourceEndpoint(nm("s", t, x.from[q]));
                }
            }
        }
        for (size_t q = 0; q < x.to.size(); ++q) {
            if (x.toSide[q] == 0) {
                if (x.toMessage) {
                    it.addDestinationEndpoint(nm("e", t, x.to[q]));
                } else {
                    it.addInputTarget(nm("i", t, x.to[q]));
                }
            }
        }
    }
    void run()
    {
        chk::describe("%s", str().c_str());
        if (d.network()) {
            fx::pickNetwork();
        }
        d.start();
        fx::runFederates(d, [&](int i) {
            auto fi = d.info(i);
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, fx::fromNs(period[static_cast<size_t>(i)] * MS));
            fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            CombinationFederate fed(d.fedName(i), fi);
            std::map<size_t, Publication*> pubs;
            std::map<size_t, Endpoint*> outs, eps;
            std::map<size_t, Input*> ins;
            for (size_t t = 0; t < tr.size(); ++t) {
                if (tr[t].owner == i && tr[t].early) {
                    makeTranslator(fed, t);
                }
            }
            fx::think(static_cast<int>(pick(3)));
            for (size_t t = 0; t < tr.size(); ++t) {
                auto& x = tr[t];
                const std::string name = "t" + std::to_string(t);
                for (size_t q = 0; q < x.from.size(); ++q) {
                    if (x.from[q] != i) {
                        continue;
                    }
                    if (x.toMessage) {
                        pubs[t] = &fed.registerGlobalPublication<std::string>(nm("p", t, i));
                        if (x.fromSide[q] == 1) {
                            pubs[t]->addInputTarget(name);
                        }
                    } else {
                        outs[t] = &fed.registerGlobalTargetedEndpoint(nm("s", t, i));
                        if (x.fromSide[q] == 1) {
                            outs[t]->addDestinationEndpoint(name);
                        }
                    }
                }
                for (size_t q = 0; q < x.to.size(); ++q) {
                    if (x.to[q] != i) {
                        continue;
                    }
                    if (x.toMessage) {
                        eps[t] = &fed.registerGlobalTargetedEndpoint(nm("e", t, i));
                        if (x.toSide[q] == 1) {
                            eps[t]->addSourceEndpoint(name);
                        }
                    } else {
                        ins[t] = &fed.registerGlobalInput<std::string>(nm("i", t, i));
                        ins[t]->setDefault(std::string("none"));
                        if (x.toSide[q] == 1) {
                            ins[t]->addPublication(name);
                        }
                    }
                }
            }
            for (size_t t = 0; t < tr.size(); ++t) {
                if (tr[t].owner == i && !tr[t].early) {
                    makeTranslator(fed, t);
                }
            }
            fed.enterExecutingMode();
            std::map<size_t, std::vector<bool>> got;
            std::map<size_t, int64_t> lastMessage, lastValue;
            int64_t granted = 0;
            size_t step = 0;
            int made = 0;
            while (true) {
                const int count = sends[static_cast<size_t>(i)][std::min(step, sends[static_cast<size_t>(i)].size() - 1)];
                if (granted > 0) {
                    for (int k = 0; k < count; ++k) {
                        for (size_t t = 0; t < tr.size(); ++t) {
                            if (pubs.count(t) == 0 && outs.count(t) == 0) {
                                continue;
                            }
                            Event ev;
                            ev.at = granted;
                            ev.source = i;
                            ev.order = made++;
                            ev.text = "x" + std::to_string(t) + "." + std::to_string(i) + "." + std::to_string(ev.order) + std::string(pick(5) == 0 ? 90 : 3, static_cast<char>(97 + ev.order % 26));
                            tr[t].events.push_back(ev);
                            if (pubs.count(t) != 0) {
                                pubs[t]->publish(ev.text);
                            } else {
                                const auto b = write(tr[t], ev.text);
                                outs[t]->send(b.char_data(), b.size());
                            }
                        }
                    }
                }
                if (granted >= end) {
                    break;
                }
                fx::think(static_cast<int>(pick(6)));
                const auto p = period[static_cast<size_t>(i)];
                const auto goal = granted + p * (flip(1, 4) ? 2 : 1);
                const auto g = fx::ns(fed.requestTime(fx::fromNs(goal * MS)));
                if (g != goal * MS) {
                    chk::fail("grant", "f%d asked for %d ms and was granted %g ms", i, static_cast<int>(goal), static_cast<double>(g) / 1e6);
                }
                granted = goal;
                ++step;
                for (auto& [t, ep] : eps) {
                    auto& x = tr[t];
                    auto& have = got[t];
                    while (ep->hasMessage()) {
                        auto m = ep->getMessage();
                        const auto text = read(x, m->data.to_string());
                        auto ev = std::find_if(x.events.begin(), x.events.end(), [&](const Event& e) { return e.text == text; });
                        if (ev == x.events.end()) {
                            chk::fail("message", "f%d at %d ms got '%s' from t%zu, nobody published that", i, static_cast<int>(granted), text.substr(0, 60).c_str(), t);
                        }
                        const auto idx = static_cast<size_t>(ev - x.events.begin());
                        have.resize(std::max(have.size(), idx + 1));
                        if (have[idx]) {
                            chk::fail("twice", "f%d at %d ms got '%s' again", i, static_cast<int>(granted), text.substr(0, 20).c_str());
                        }
                        have[idx] = true;
                        const auto mt = fx::ns(m->time);
                        if (mt < ev->at * MS || mt > ev->at * MS + 1 || mt > g) {
                            chk::fail("message-time", "f%d at %d ms got the value of %d ms with time %lld ns", i, static_cast<int>(granted), static_cast<int>(ev->at),
                                      static_cast<long long>(mt));
                        }
                        if (ev->at < lastMessage[t]) {
                            chk::fail("message-order", "f%d at %d ms got the value of %d ms after a later one", i, static_cast<int>(granted), static_cast<int>(ev->at));
                        }
                        lastMessage[t] = ev->at;
                        for (size_t o = 0; o < have.size(); ++o) {
                            if (have[o] && x.events[o].source == ev->source && x.events[o].order > ev->order) {
                                chk::fail("message-order", "f%d at %d ms got '%s' after '%s'", i, static_cast<int>(granted), text.substr(0, 20).c_str(),
                                          x.events[o].text.substr(0, 20).c_str());
                            }
                        }
                        if (m->source != "t" + std::to_string(t) || m->original_source != nm("p", t, ev->source) || m->dest != nm("e", t, i)) {
                            chk::fail("message-address", "f%d: from %s (%s) to %s", i, m->source.c_str(), m->original_source.c_str(), m->dest.c_str());
                        }
                        chk::count("reach.value_to_message");
                    }
                    for (size_t o = 0; o < x.events.size(); ++o) {
                        if (x.events[o].at < granted && (o >= have.size() || !have[o])) {
                            chk::fail("message-missing", "f%d at %d ms has not got '%s' of %d ms", i, static_cast<int>(granted), x.events[o].text.substr(0, 20).c_str(),
                                      static_cast<int>(x.events[o].at));
                        }
                    }
                }
                for (auto& [t, in] : ins) {
                    auto& x = tr[t];
                    const auto text = in->getValue<std::string>();
                    int64_t latest = -1;
                    for (auto& e : x.events) {
                        if (e.at < granted) {
                            latest = std::max(latest, e.at);
                        }
                    }
                    if (text == "none") {
                        if (latest >= 0) {
                            chk::fail("value-missing", "f%d at %d ms has no value from t%zu", i, static_cast<int>(granted), t);
                        }
                        continue;
                    }
                    auto ev = std::find_if(x.events.begin(), x.events.end(), [&](const Event& e) { return e.text == text; });
                    if (ev == x.events.end()) {
                        chk::fail("value", "f%d at %d ms sees '%s' from t%zu, nobody sent that", i, static_cast<int>(granted), text.substr(0, 60).c_str(), t);
                    }
                    const bool newest = std::none_of(x.events.begin(), x.events.end(), [&](const Event& e) {
                        return e.source == ev->source && e.at == ev->at && e.order > ev->order;
                    });
                    if (ev->at > granted || ev->at < latest || ev->at < lastValue[t] || (ev->at < granted && !newest)) {
                        chk::fail("value-stale", "f%d at %d ms sees '%s' of %d ms, the latest is of %d ms", i, static_cast<int>(granted), text.substr(0, 20).c_str(),
                                  static_cast<int>(ev->at), static_cast<int>(latest));
                    }
                    lastValue[t] = ev->at;
                    chk::count("reach.message_to_value");
                }
            }
            fed.finalize();
        });
        d.finish();
        chk::nontrivial();
    }
};

chk::Register trA("X", "translators", 1, [] {
    Translators r;
    r.generate();
    r.run();
});
}  // namespace
