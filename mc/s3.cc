// An S3 server inside the checker: libcurl's easy interface is replaced at link time, requests are
// answered from buckets kept in the modelled file system below /mcfs/s3 (so they are part of every
// crash image and survive the process). Requests are checked as a server would: signature, bucket,
// content length. Every request is one faultable call (see fs::net_call).
#include "fs.h"
#include <curl/curl.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

typedef size_t (*Xfer)(void*, size_t, size_t, void*);
struct Handle { std::string method, url; curl_slist* headers; Xfer rd, wr; void *rarg, *warg; bool upload, failonerror; long long size; long status; };
static const char* LOGIN = "login";
static const char* PASSWORD = "secret";
static const char* HOST = "http://s3";
static std::string root() { return std::string(fs::ROOT) + "/s3"; }
static std::string header(Handle* h, const char* name) {
  for (curl_slist* l = h->headers; l; l = l->next) { size_t n = strlen(name); if (!strncasecmp(l->data, name, n) && l->data[n] == ':') { const char* p = l->data + n + 1; while (*p == ' ') p++; return p; } }
  return "";
}
static std::string base64(const unsigned char* p, int n) { unsigned char o[64]; EVP_EncodeBlock(o, p, n); return (char*)o; }
static CURLcode answer(Handle* h, long status) { h->status = status; return status >= 400 && h->failonerror ? CURLE_HTTP_RETURNED_ERROR : CURLE_OK; }

static CURLcode serve(Handle* h) {
  if (h->url.compare(0, strlen(HOST), HOST) != 0) return CURLE_COULDNT_RESOLVE_HOST;
  std::string path = h->url.substr(strlen(HOST)); if (path.size() < 2 || path[0] != '/') return answer(h, 400);
  // signature, version 2
  std::string type = header(h, "Content-Type"), sign = h->method + "\n\n" + type + "\n" + header(h, "Date") + "\n" + path; unsigned char mac[64]; unsigned int ml = 0;
  HMAC(EVP_sha1(), PASSWORD, (int)strlen(PASSWORD), (const unsigned char*)sign.data(), sign.size(), mac, &ml);
  if (header(h, "Date").empty() || header(h, "Authorization") != std::string("AWS ") + LOGIN + ":" + base64(mac, ml)) return answer(h, 403);
  size_t sl = path.find('/', 1); std::string bucket = path.substr(1, sl == std::string::npos ? std::string::npos : sl - 1), object = sl == std::string::npos ? "" : path.substr(sl + 1);
  std::string dir = root() + "/" + bucket, file = dir + "/" + object; bool have = fs::exists(dir);
  bool change = h->method != "GET"; int cut = 0;
  // the body is transferred before the server decides
  std::string body;
  if (h->method == "PUT" && !object.empty()) {
    std::string cl = header(h, "Content-Length"); if (cl.empty() || !h->upload || !h->rd || strtoll(cl.c_str(), nullptr, 10) != h->size) return answer(h, 411);
    while ((long long)body.size() < h->size) {
      char b[700]; size_t n = std::min<size_t>(sizeof b, h->size - body.size()); size_t r = h->rd(b, 1, n, h->rarg);
      if (r == CURL_READFUNC_ABORT) return CURLE_ABORTED_BY_CALLBACK; if (r == CURL_READFUNC_PAUSE || r > n) return CURLE_READ_ERROR; if (r == 0) return answer(h, 400);   // the server gives up waiting for the rest
      body.append(b, r);
    }
  }
  int e = fs::net_call(change, h->method + " " + path, &cut); if (e) return e & 1 ? CURLE_COULDNT_CONNECT : CURLE_OPERATION_TIMEDOUT;
  CURLcode rc;
  if (object.empty()) {
    if (h->method == "PUT") { if (have) rc = answer(h, 409); else { fs::server_put(dir, nullptr); rc = answer(h, 200); } }
    else if (h->method == "DELETE") { bool empty = true; for (auto& f : fs::listing()) if (f.first.compare(0, dir.size() + 1, dir + "/") == 0) empty = false; if (!have) rc = answer(h, 404); else if (!empty) rc = answer(h, 409); else { fs::server_remove(dir); rc = answer(h, 204); } }
    else rc = answer(h, 400);
  } else if (!have) rc = answer(h, 404);
  else if (h->method == "PUT") { fs::server_put(file, &body); rc = answer(h, 200); }
  else if (h->method == "DELETE") { fs::server_remove(file); rc = answer(h, 204); }
  else if (h->method == "GET") {
    if (!fs::exists(file)) return answer(h, 404);
    std::string d = fs::read_file(file), r = header(h, "Range"); long st = 200;
    if (!r.empty()) { unsigned long long a, b; if (sscanf(r.c_str(), "bytes=%llu-%llu", &a, &b) != 2 || b < a) return answer(h, 400); if (a >= d.size()) return answer(h, 416); d = d.substr(a, b - a + 1); st = 206; }
    if (!h->wr) return answer(h, st);
    size_t end = cut ? d.size() / 2 : d.size();
    for (size_t p = 0; p < end;) { size_t n = std::min<size_t>(700, end - p); std::string x = d.substr(p, n); if (h->wr(&x[0], 1, n, h->warg) != n) return CURLE_WRITE_ERROR; p += n; }
    if (cut) return CURLE_PARTIAL_FILE; return answer(h, st);
  } else rc = answer(h, 405);
  if (cut) return CURLE_GOT_NOTHING;   // the request was served, the answer is lost
  return rc;
}
extern "C" {
CURL* __wrap_curl_easy_init(void) { auto h = new Handle; *h = Handle(); return (CURL*)h; }
void __wrap_curl_easy_cleanup(CURL* c) { delete (Handle*)c; }
void __wrap_curl_easy_reset(CURL* c) { *(Handle*)c = Handle(); }
CURLcode __wrap_curl_easy_setopt(CURL* c, CURLoption o, ...) {
  auto h = (Handle*)c; va_list a; va_start(a, o);
  switch (o) {
    case CURLOPT_CUSTOMREQUEST: h->method = va_arg(a, char*); break;
    case CURLOPT_URL: h->url = va_arg(a, char*); break;
    case CURLOPT_HTTPHEADER: h->headers = va_arg(a, curl_slist*); break;
    case CURLOPT_FAILONERROR: h->failonerror = va_arg(a, int); break;
    case CURLOPT_UPLOAD: h->upload = va_arg(a, int); break;
    case CURLOPT_INFILESIZE_LARGE: h->size = va_arg(a, long long); break;
    case CURLOPT_READFUNCTION: h->rd = va_arg(a, Xfer); break;
    case CURLOPT_READDATA: h->rarg = va_arg(a, void*); break;
    case CURLOPT_WRITEFUNCTION: h->wr = va_arg(a, Xfer); break;
    case CURLOPT_WRITEDATA: h->warg = va_arg(a, void*); break;
    default: break;
  }
  va_end(a); return CURLE_OK;
}
CURLcode __wrap_curl_easy_getinfo(CURL* c, CURLINFO i, ...) { va_list a; va_start(a, i); if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = ((Handle*)c)->status; va_end(a); return CURLE_OK; }
CURLcode __wrap_curl_easy_perform(CURL* c) { return serve((Handle*)c); }
}
