#include "curl_stub.h"
#include <cstdarg>
#include <cstring>
#include <string>
#include <curl/curl.h>
#undef curl_easy_setopt

const char* const net_names[N_COUNT] = {"delivered", "viewer not listening", "answer lost", "connection cut while sending",
                                        "empty answer", "transfer handle refused", "transfer body refused"};

// The stub's own objects come from the simulated heap like everything else, so
// that use after release or a double release of them is noticed.
struct Part { std::string data; };
struct curl_mime { uint64_t magic; Part* part; };
struct Easy { uint64_t magic; int outcome; std::string url; curl_mime* mime; bool performed; };

namespace {
const uint64_t ME = 0xEA5Eull, MM = 0x313Eull;
std::vector<int> net;
size_t next_transfer;
int handles, mimes;

Easy* of(void* h) {
  Easy* e = (Easy*)h;
  if (e && e->magic != ME) rt::anomaly(rt::AN_MISUSE, "transfer handle used after its release");
  return e;
}
curl_mime* of(curl_mime* m) {
  if (m && m->magic != MM) rt::anomaly(rt::AN_MISUSE, "transfer body used after its release");
  return m;
}
int url_no(const std::string& u) {
  const char* n[] = {"/debug_util/v1/user/line", "/debug_util/v1/user/cubic", "/debug_util/v1/user/point", "/debug_util/v1/user/rect"};
  for (int i = 0; i < 4; ++i) {
    size_t k = strlen(n[i]);
    if (u.size() >= k && u.compare(u.size() - k, k, n[i]) == 0 && u.find("127.0.0.1:5569") != std::string::npos) return i + 1;
  }
  return 0;
}
}  // namespace

void curl_stub_begin(const std::vector<int>& n) { net = n; next_transfer = 0; handles = mimes = 0; }
void curl_stub_end(int* h, int* m) { *h = handles; *m = mimes; }

extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
const char* curl_easy_strerror(CURLcode) { return "simulated"; }

CURL* curl_easy_init(void) {
  rt::Scope u(rt::USER);
  rt::callback_point();
  int o = next_transfer < net.size() ? net[next_transfer] : N_OK;
  ++next_transfer;
  if (o == N_NOHANDLE) { rt::hash(0xFE01); emit_post(rt::self(), -1, 0, o, "", 0); return nullptr; }
  ++handles;
  Easy* e = new Easy{ME, o, "", nullptr, false};
  return (CURL*)e;
}
curl_mime* curl_mime_init(CURL* h) {
  rt::Scope u(rt::USER);
  Easy* e = of(h);
  if (!e || e->outcome == N_NOMIME) return nullptr;
  ++mimes;
  return new curl_mime{MM, nullptr};
}
curl_mimepart* curl_mime_addpart(curl_mime* m) {
  rt::Scope u(rt::USER);
  if (!of(m)) return nullptr;
  if (m->part) rt::anomaly(rt::AN_MISUSE, "transfer with more than one part");
  m->part = new Part;
  return (curl_mimepart*)m->part;
}
CURLcode curl_mime_data(curl_mimepart* p, const char* d, size_t n) {
  rt::Scope u(rt::USER);
  if (!p) return CURLE_BAD_FUNCTION_ARGUMENT;
  ((Part*)p)->data.assign(d, n == CURL_ZERO_TERMINATED ? strlen(d) : n);
  return CURLE_OK;
}
CURLcode curl_mime_filename(curl_mimepart* p, const char*) { return p ? CURLE_OK : CURLE_BAD_FUNCTION_ARGUMENT; }
CURLcode curl_mime_name(curl_mimepart* p, const char*) { return p ? CURLE_OK : CURLE_BAD_FUNCTION_ARGUMENT; }
CURLcode curl_mime_type(curl_mimepart* p, const char*) { return p ? CURLE_OK : CURLE_BAD_FUNCTION_ARGUMENT; }
CURLcode curl_mime_encoder(curl_mimepart* p, const char*) { return p ? CURLE_OK : CURLE_BAD_FUNCTION_ARGUMENT; }
CURLcode curl_easy_setopt(CURL* h, CURLoption opt, ...) {
  int o = (int)opt;
  rt::Scope u(rt::USER);
  Easy* e = of(h);
  if (!e) return CURLE_BAD_FUNCTION_ARGUMENT;
  va_list a;
  va_start(a, opt);
  if (o == CURLOPT_URL) { const char* s = va_arg(a, const char*); e->url = s ? s : ""; }
  else if (o == CURLOPT_MIMEPOST) e->mime = va_arg(a, curl_mime*);
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* h) {
  rt::Scope u(rt::USER);
  Easy* e = of(h);
  if (!e) return CURLE_BAD_FUNCTION_ARGUMENT;
  for (int i = 0; i < 1 + (e->outcome == N_TIMEOUT ? 20 : 0); ++i) rt::callback_point();   // the network takes its time
  if (e->performed) { e->outcome = next_transfer < net.size() ? net[next_transfer] : N_OK; ++next_transfer; }
  e->performed = true;
  std::string body;
  if (e->mime && of(e->mime)->part) body = e->mime->part->data;
  rt::hash(0xFE00 + e->outcome);
  emit_post(rt::self(), -1, url_no(e->url), e->outcome, body.data(), body.size());
  switch (e->outcome) {
    case N_REFUSED: return CURLE_COULDNT_CONNECT;
    case N_TIMEOUT: return CURLE_OPERATION_TIMEDOUT;
    case N_CUT: return CURLE_SEND_ERROR;
    case N_NOTHING: return CURLE_GOT_NOTHING;
    default: return CURLE_OK;
  }
}
void curl_mime_free(curl_mime* m) {
  rt::Scope u(rt::USER);
  if (!of(m)) return;
  m->magic = 0;
  --mimes;
  delete m->part;
  delete m;
}
void curl_easy_cleanup(CURL* h) {
  rt::Scope u(rt::USER);
  Easy* e = of(h);
  if (!e) return;
  e->magic = 0;
  --handles;
  delete e;
}
void curl_easy_reset(CURL* h) { Easy* e = of(h); if (e) { e->url.clear(); e->mime = nullptr; } }
}
