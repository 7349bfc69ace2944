// A plugin that decides by a table, which is read when the plugin is initialized (and when the configuration is reloaded), and that takes commands
// from a FIFO: the outcome of logins it was asked to think about, and things it does by itself.
// A rule: op client user filter verdict topic qos retain props   ("*": any, "-": unchanged)
#include <fcntl.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/stat.h>
#include <fstream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "flashmq_plugin.h"

struct Rule { std::string op, cl, user, verdict, topic, qos, retain, props; std::vector<std::string> f; bool any; };
struct Data { std::vector<Rule> rules; std::multimap<std::string, std::weak_ptr<Client>> asked; int fd = -1; std::string in; };

static std::vector<std::string> split(const std::string &s)
{
    std::vector<std::string> r;
    size_t i = 0;
    for (;;)
    {
        size_t j = s.find('/', i);
        r.push_back(s.substr(i, j == std::string::npos ? j : j - i));
        if (j == std::string::npos)
            return r;
        i = j + 1;
    }
}

static bool matches(const std::vector<std::string> &f, const std::vector<std::string> &t)
{
    for (size_t i = 0; i < f.size(); i++)
    {
        if (f[i] == "#")
            return true;
        if (i >= t.size() || (f[i] != "+" && f[i] != t[i]))
            return false;
    }
    return f.size() == t.size();
}

static const Rule *find(Data *d, const std::string &op, const std::string &cl, const std::string &user, const std::vector<std::string> &t, bool literal)
{
    for (const Rule &r : d->rules)
        if (r.op == op && (r.cl == "*" || r.cl == cl) && (r.user == "*" || r.user == user) && (r.any || (literal ? r.f == t : matches(r.f, t))))
            return &r;
    return nullptr;
}

static AuthResult result(const std::string &v)
{
    static const std::map<std::string, int> m = {{"ok", 0}, {"ldeny", 11}, {"deny", 12}, {"error", 13}, {"unavail", 14}, {"badmeth", 10}, {"cont", -4}, {"async", 50}, {"nort", 51}, {"nr", 52}, {"drop", 53}};
    if (v == "throw")
        throw std::runtime_error("the plugin was told to throw");
    return static_cast<AuthResult>(m.at(v));
}

extern "C"
{
#define X __attribute__((visibility("default")))

X int flashmq_plugin_version() { return FLASHMQ_PLUGIN_VERSION; }
X void flashmq_plugin_allocate_thread_memory(void **p, std::unordered_map<std::string, std::string> &) { *p = new Data(); }
X void flashmq_plugin_deallocate_thread_memory(void *p, std::unordered_map<std::string, std::string> &) { delete static_cast<Data*>(p); }

X void flashmq_plugin_init(void *p, std::unordered_map<std::string, std::string> &opts, bool reloading)
{
    Data *d = static_cast<Data*>(p);
    d->rules.clear();
    std::ifstream in(opts["rules"]);
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream s(line);
        Rule r;
        std::string f;
        if (!(s >> r.op >> r.cl >> r.user >> f >> r.verdict >> r.topic >> r.qos >> r.retain >> r.props))
            throw std::runtime_error("rules");
        r.any = f == "*";
        r.f = split(f);
        d->rules.push_back(r);
    }
    if (!reloading)
    {
        mkfifo(opts["fifo"].c_str(), 0600);
        d->fd = open(opts["fifo"].c_str(), O_RDWR | O_NONBLOCK | O_CLOEXEC);
        if (d->fd < 0)
            throw std::runtime_error("fifo");
        flashmq_poll_add_fd(d->fd, EPOLLIN, std::weak_ptr<void>());
    }
}

X void flashmq_plugin_deinit(void *p, std::unordered_map<std::string, std::string> &, bool reloading)
{
    Data *d = static_cast<Data*>(p);
    if (!reloading && d->fd >= 0)
    {
        close(d->fd);
        d->fd = -1;
    }
}

X AuthResult flashmq_plugin_login_check(void *p, const std::string &cl, const std::string &user, const std::string &pw,
                                        const std::vector<std::pair<std::string, std::string>> *, const std::weak_ptr<Client> &client)
{
    Data *d = static_cast<Data*>(p);
    const Rule *r = find(d, "login", cl, user, {}, false);
    if (!r)
        return AuthResult::success;
    if (r->verdict == "async")
        d->asked.emplace(pw, client);
    return result(r->verdict);
}

X AuthResult flashmq_plugin_extended_auth(void *p, const std::string &cl, ExtendedAuthStage stage, const std::string &, const std::string &data,
                                           const std::vector<std::pair<std::string, std::string>> *, std::string &returned, std::string &user, const std::weak_ptr<Client> &client)
{
    Data *d = static_cast<Data*>(p);
    const Rule *r = find(d, stage == ExtendedAuthStage::Auth ? "auth" : stage == ExtendedAuthStage::Continue ? "cont" : "reauth", cl, "", {}, false);
    if (!r)
        return AuthResult::success;
    if (r->topic != "-")
        returned = r->topic;
    if (r->props != "-")
        user = r->props;
    if (r->verdict == "async")
        d->asked.emplace(data, client);
    return result(r->verdict);
}

X AuthResult flashmq_plugin_acl_check(void *p, const AclAccess access, const std::string &cl, const std::string &user, const std::string &,
                                      const std::vector<std::string> &subtopics, const std::string &, std::string_view, const uint8_t, const bool,
                                      const std::optional<std::string> &, const std::optional<std::string> &, const std::optional<std::string> &,
                                      const std::optional<std::chrono::time_point<std::chrono::steady_clock>>, const std::vector<std::pair<std::string, std::string>> *)
{
    const char *op = access == AclAccess::read ? "read" : access == AclAccess::write ? "write" : access == AclAccess::subscribe ? "subscribe" : "will";
    const Rule *r = find(static_cast<Data*>(p), op, cl, user, subtopics, access == AclAccess::subscribe);
    return r ? result(r->verdict) : AuthResult::success;
}

X bool flashmq_plugin_alter_publish(void *p, const std::string &cl, std::string &topic, const std::vector<std::string> &subtopics, std::string_view, uint8_t &qos, bool &retain,
                                    std::optional<std::string> &correlation, std::optional<std::string> &response, std::optional<std::string> &content,
                                    std::vector<std::pair<std::string, std::string>> *up)
{
    const Rule *r = find(static_cast<Data*>(p), "altpub", cl, "", subtopics, false);
    if (!r)
        return false;
    bool changed = false;
    if (r->topic != "-")
    {
        topic = r->topic;
        changed = true;
    }
    if (r->qos != "-")
    {
        qos = static_cast<uint8_t>(r->qos[0] - '0');
        changed = true;
    }
    if (r->retain != "-")
        retain = r->retain == "1";
    if (r->props != "-")
    {
        changed = true;
        if (r->props == "ct")
            content = "from/plugin";
        else if (r->props == "rt")
            response = "re/sponse";
        else if (r->props == "cd")
            correlation = "co";
        else if (r->props == "none")
        {
            content.reset();
            response.reset();
            correlation.reset();
            if (up)
                up->clear();
        }
        else if (r->props == "up" && up)
            up->emplace_back("added", "1");
    }
    return changed;
}

X bool flashmq_plugin_alter_subscription(void *p, const std::string &cl, std::string &topic, const std::vector<std::string> &, uint8_t &qos,
                                         const std::vector<std::pair<std::string, std::string>> *)
{
    const Rule *r = find(static_cast<Data*>(p), "altsub", cl, "", split(topic), true);
    if (!r)
        return false;
    if (r->topic != "-")
        topic = r->topic;
    if (r->qos != "-")
        qos = static_cast<uint8_t>(r->qos[0] - '0');
    return true;
}

X void flashmq_plugin_poll_event_received(void *p, int fd, uint32_t, const std::weak_ptr<void> &)
{
    Data *d = static_cast<Data*>(p);
    char buf[4096];
    ssize_t n = read(fd, buf, sizeof(buf));
    if (n > 0)
        d->in.append(buf, n);
    size_t i;
    while ((i = d->in.find('\n')) != std::string::npos)
    {
        std::istringstream s(d->in.substr(0, i));
        d->in.erase(0, i + 1);
        std::string cmd, a, b;
        s >> cmd >> a;
        if (cmd == "decide")
        {
            std::string method;
            s >> b >> method;
            auto it = d->asked.find(a);
            if (it == d->asked.end())
                continue;
            flashmq_continue_async_authentication_v4(it->second, result(b), method, "", 0);
            d->asked.erase(it);
        }
        else if (cmd == "pub")
        {
            int q, r;
            s >> q >> r >> b;
            flashmq_publish_message(a, static_cast<uint8_t>(q), r, b);
        }
    }
}
}
