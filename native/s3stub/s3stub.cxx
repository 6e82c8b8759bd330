// The in-memory service behind aws_stub.h and the extern "C" functions that control it.
#include "aws_stub.h"
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <mutex>
#include <set>
#include <thread>

namespace {
    using namespace Aws::S3;
    using Aws::Http::HttpResponseCode;

    enum Op {GET = 0, HEAD = 1, PUT = 2, DEL = 3, DELS = 4, LIST = 5, NOPS = 6};
    const char * const NAMES[] = {"GET", "HEAD", "PUT", "DELETE", "DELETE-MANY", "LIST"};
    // how a request fails
    enum Kind {SERVER = 0, FORBIDDEN = 1, NETWORK = 2, LOST_REPLY = 3, TRUNCATED = 4, PARTIAL = 5};

    struct Service {
        std::mutex mutex;
        std::map<std::string, std::map<std::string, std::string>> buckets;
        int page = 1000;
        int delay = 0;
        bool unknownLength = false;
        // fail the requests first..last (counted from 0 since the fault was set) among the operations of the mask
        int mask = 0, first = 0, last = -1, kind = 0;
        long counted = 0, failed = 0;
        std::string keyPart;
        long counts[NOPS] = {0};
        bool logging = false;
        std::string log;
        std::set<std::string> identities;
        int clients = 0, initialized = 0, useAfterShutdown = 0;
    };
    Service & service() {
        static Service * s = new Service();
        return *s;
    }

    S3Error makeError(const S3Errors type, const char * name, const std::string & message, const HttpResponseCode code) {
        S3Error e(type, name, message, false);
        e.SetResponseCode(code);
        return e;
    }

    S3Error faultError(const int kind) {
        switch(kind) {
            case FORBIDDEN: return makeError(S3Errors::ACCESS_DENIED, "AccessDenied", "Access Denied", HttpResponseCode::FORBIDDEN);
            case SERVER: return makeError(S3Errors::INTERNAL_FAILURE, "InternalError", "We encountered an internal error", HttpResponseCode::INTERNAL_SERVER_ERROR);
            default: return makeError(S3Errors::NETWORK_CONNECTION, "", "Couldn't connect to server", HttpResponseCode::REQUEST_NOT_MADE);
        }
    }

    // to be called at the start of each request; -1 or the kind of the failure
    int enter(Service & s, std::unique_lock<std::mutex> & lock, const Op op, const std::string & key) {
        const int delay = s.delay;
        if(delay > 0) {
            lock.unlock();
            std::this_thread::sleep_for(std::chrono::microseconds(delay));
            lock.lock();
        }
        if(s.initialized <= 0) {
            ++s.useAfterShutdown;
        }
        ++s.counts[op];
        int kind = -1;
        if((s.mask >> op) & 1 && (s.keyPart.empty() || key.find(s.keyPart) != std::string::npos)) {
            const long i = s.counted++;
            if(i >= s.first && i <= s.last) {
                ++s.failed;
                kind = s.kind;
            }
        }
        if(s.logging) {
            s.log += std::string(NAMES[op]) + " " + key + (kind >= 0 ? " failed\n" : "\n");
        }
        return kind;
    }
}

namespace Aws {
    void InitAPI(const SDKOptions &) {
        std::lock_guard<std::mutex> lock(service().mutex);
        ++service().initialized;
    }
    void ShutdownAPI(const SDKOptions &) {
        std::lock_guard<std::mutex> lock(service().mutex);
        --service().initialized;
    }

namespace S3 {
    S3Client::S3Client(const std::shared_ptr<Auth::AWSCredentialsProvider> & credentials,
                       std::shared_ptr<S3EndpointProviderBase>, const S3ClientConfiguration & config) {
        const auto c = credentials->GetAWSCredentials();
        identity_ = std::string(config.scheme == Http::Scheme::HTTP ? "http://" : "https://") + config.endpointOverride +
            (config.useVirtualAddressing ? " virtual " : " path ") + config.region + " " +
            c.GetAWSAccessKeyId() + ":" + c.GetAWSSecretKey();
        std::lock_guard<std::mutex> lock(service().mutex);
        ++service().clients;
    }
    S3Client::S3Client(const S3ClientConfiguration & config)
        : S3Client(std::make_shared<Auth::DefaultAWSCredentialsProviderChain>(), nullptr, config) {}
    S3Client::S3Client(const S3Client & other) : identity_(other.identity_) {
        std::lock_guard<std::mutex> lock(service().mutex);
        ++service().clients;
    }
    S3Client::~S3Client() {
        std::lock_guard<std::mutex> lock(service().mutex);
        --service().clients;
        // clients must not outlive the API
        if(service().initialized <= 0) {
            ++service().useAfterShutdown;
        }
    }

    #define VT_ENTER(OP, KEY, OUTCOME) \
        Service & s = service(); \
        std::unique_lock<std::mutex> lock(s.mutex); \
        s.identities.insert(identity_); \
        const int fault = enter(s, lock, OP, KEY); \
        if(fault >= 0 && fault <= NETWORK) {return Model::OUTCOME(faultError(fault));} \
        const auto bIt = s.buckets.find(request.GetBucket()); \
        if(bIt == s.buckets.end()) { \
            return Model::OUTCOME(makeError(S3Errors::NO_SUCH_BUCKET, "NoSuchBucket", "The specified bucket does not exist", HttpResponseCode::NOT_FOUND)); \
        } \
        auto & bucket = bIt->second; (void) bucket;

    Model::GetObjectOutcome S3Client::GetObject(const Model::GetObjectRequest & request) const {
        VT_ENTER(GET, request.GetKey(), GetObjectOutcome)
        const auto it = bucket.find(request.GetKey());
        if(it == bucket.end()) {
            return Model::GetObjectOutcome(makeError(S3Errors::NO_SUCH_KEY, "NoSuchKey", "The specified key does not exist.", HttpResponseCode::NOT_FOUND));
        }
        if(fault == LOST_REPLY) {
            return Model::GetObjectOutcome(faultError(NETWORK));
        }
        std::string content = it->second;
        if(request.RangeHasBeenSet()) {
            unsigned long long a = 0, b = 0;
            if(std::sscanf(request.GetRange().c_str(), "bytes=%llu-%llu", &a, &b) == 2 && a < content.size()) {
                content = content.substr(a, b - a + 1);
            } else if(std::sscanf(request.GetRange().c_str(), "bytes=-%llu", &a) == 1) {
                content = content.substr(content.size() - std::min<unsigned long long>(a, content.size()));
            } else if(std::sscanf(request.GetRange().c_str(), "bytes=%llu-", &a) == 1 && a < content.size()) {
                content = content.substr(a);
            }
        }
        Model::GetObjectResult r;
        r.SetContentLength(s.unknownLength ? -1 : (long long) content.size());
        if(fault == TRUNCATED && !content.empty()) {
            content.resize(content.size() - 1 - content.size() / 3);
        }
        r.ReplaceBody(std::make_shared<std::stringstream>(content));
        return Model::GetObjectOutcome(std::move(r));
    }

    Model::HeadObjectOutcome S3Client::HeadObject(const Model::HeadObjectRequest & request) const {
        VT_ENTER(HEAD, request.GetKey(), HeadObjectOutcome)
        const auto it = bucket.find(request.GetKey());
        if(it == bucket.end()) {
            // (a HEAD response has no body, so there is no error code in it)
            return Model::HeadObjectOutcome(makeError(S3Errors::RESOURCE_NOT_FOUND, "", "No response body.", HttpResponseCode::NOT_FOUND));
        }
        if(fault >= 0) {
            return Model::HeadObjectOutcome(faultError(NETWORK));
        }
        Model::HeadObjectResult r;
        r.SetContentLength(it->second.size());
        return Model::HeadObjectOutcome(std::move(r));
    }

    Model::PutObjectOutcome S3Client::PutObject(const Model::PutObjectRequest & request) const {
        VT_ENTER(PUT, request.GetKey(), PutObjectOutcome)
        std::string content;
        if(request.GetBody()) {
            content.assign(std::istreambuf_iterator<char>(*request.GetBody()), std::istreambuf_iterator<char>());
        }
        bucket[request.GetKey()] = content;
        if(fault >= 0) {
            return Model::PutObjectOutcome(faultError(NETWORK));
        }
        return Model::PutObjectOutcome(Model::PutObjectResult());
    }

    Model::DeleteObjectOutcome S3Client::DeleteObject(const Model::DeleteObjectRequest & request) const {
        VT_ENTER(DEL, request.GetKey(), DeleteObjectOutcome)
        bucket.erase(request.GetKey());
        if(fault >= 0) {
            return Model::DeleteObjectOutcome(faultError(NETWORK));
        }
        return Model::DeleteObjectOutcome(Model::DeleteObjectResult());
    }

    Model::DeleteObjectsOutcome S3Client::DeleteObjects(const Model::DeleteObjectsRequest & request) const {
        const auto & objects = request.GetDelete().GetObjects();
        VT_ENTER(DELS, objects.empty() ? std::string() : objects[0].GetKey(), DeleteObjectsOutcome)
        if(objects.empty() || objects.size() > 1000) {
            return Model::DeleteObjectsOutcome(makeError(S3Errors::UNKNOWN, "MalformedXML", "The XML you provided was not well-formed", HttpResponseCode::BAD_REQUEST));
        }
        Model::DeleteObjectsResult r;
        Aws::Vector<Model::Error> errors;
        Aws::Vector<Model::DeletedObject> deleted;
        for(std::size_t i = 0; i < objects.size(); ++i) {
            // the request as a whole succeeds, but one of its keys could not be deleted
            if(fault == PARTIAL && i == objects.size() / 2) {
                errors.push_back(Model::Error().WithKey(objects[i].GetKey()).WithCode("InternalError").WithMessage("We encountered an internal error"));
                continue;
            }
            bucket.erase(objects[i].GetKey());
            deleted.push_back(Model::DeletedObject().WithKey(objects[i].GetKey()));
        }
        if(fault == LOST_REPLY) {
            return Model::DeleteObjectsOutcome(faultError(NETWORK));
        }
        r.SetErrors(errors);
        r.SetDeleted(deleted);
        return Model::DeleteObjectsOutcome(std::move(r));
    }

    Model::ListObjectsV2Outcome S3Client::ListObjectsV2(const Model::ListObjectsV2Request & request) const {
        VT_ENTER(LIST, request.GetPrefix(), ListObjectsV2Outcome)
        if(fault >= 0) {
            return Model::ListObjectsV2Outcome(faultError(NETWORK));
        }
        const std::string prefix = request.GetPrefix(), delimiter = request.GetDelimiter();
        const int max = std::min(s.page, request.MaxKeysHasBeenSet() ? request.GetMaxKeys() : 1000);
        // the token is the last key or common prefix that was listed
        std::string after = request.GetContinuationToken();
        if(!after.empty()) {
            if(after.compare(0, 2, "t:") != 0) {
                return Model::ListObjectsV2Outcome(makeError(S3Errors::UNKNOWN, "InvalidArgument", "The continuation token provided is incorrect", HttpResponseCode::BAD_REQUEST));
            }
            after = after.substr(2);
        } else if(request.StartAfterHasBeenSet()) {
            after = request.GetStartAfter();
        }
        Model::ListObjectsV2Result r;
        Aws::Vector<Model::Object> contents;
        Aws::Vector<Model::CommonPrefix> prefixes;
        std::string last;
        bool truncated = false;
        for(auto it = bucket.lower_bound(prefix); it != bucket.end() && it->first.compare(0, prefix.size(), prefix) == 0; ++it) {
            std::string entry = it->first;
            bool isPrefix = false;
            if(!delimiter.empty()) {
                const auto pos = entry.find(delimiter, prefix.size());
                if(pos != std::string::npos) {
                    entry = entry.substr(0, pos + delimiter.size());
                    isPrefix = true;
                }
            }
            if(!after.empty() && entry <= after) {
                continue;
            }
            if(isPrefix && !prefixes.empty() && prefixes.back().GetPrefix() == entry) {
                continue;
            }
            if((int) (contents.size() + prefixes.size()) >= max) {
                truncated = true;
                break;
            }
            if(isPrefix) {
                prefixes.push_back(Model::CommonPrefix().WithPrefix(entry));
            } else {
                contents.push_back(Model::Object().WithKey(entry).WithSize(it->second.size()));
            }
            last = entry;
        }
        r.SetKeyCount(contents.size() + prefixes.size());
        r.SetContents(contents);
        r.SetCommonPrefixes(prefixes);
        r.SetIsTruncated(truncated);
        if(truncated) {
            r.SetNextContinuationToken("t:" + last);
        }
        return Model::ListObjectsV2Outcome(std::move(r));
    }
}
}

#define VT_API extern "C" __attribute__((visibility("default"), used))

// forget everything; the bucket exists and is empty
VT_API void vts3_reset(const char * bucket) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    s.buckets.clear();
    s.buckets[bucket];
    s.page = 1000; s.delay = 0; s.unknownLength = false;
    s.mask = 0; s.counted = s.failed = 0;
    s.identities.clear();
    s.log.clear(); s.logging = false;
    std::memset(s.counts, 0, sizeof(s.counts));
}
VT_API void vts3_config(int page, int delay, int unknownLength, int logging) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    s.page = page; s.delay = delay; s.unknownLength = unknownLength; s.logging = logging;
}
VT_API void vts3_fault(int mask, int first, int last, int kind, const char * keyPart) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    s.mask = mask; s.first = first; s.last = last; s.kind = kind; s.counted = s.failed = 0; s.keyPart = keyPart;
}
// the number of requests that matched the fault's mask, and that failed
VT_API long vts3_counted() {Service & s = service(); std::lock_guard<std::mutex> lock(s.mutex); return s.counted;}
VT_API long vts3_failed() {Service & s = service(); std::lock_guard<std::mutex> lock(s.mutex); return s.failed;}
VT_API long vts3_requests(int op) {Service & s = service(); std::lock_guard<std::mutex> lock(s.mutex); return s.counts[op];}
VT_API long vts3_clients() {Service & s = service(); std::lock_guard<std::mutex> lock(s.mutex); return s.clients;}
VT_API long vts3_misuse() {Service & s = service(); std::lock_guard<std::mutex> lock(s.mutex); return s.useAfterShutdown;}

namespace {
    long give(const std::string & what, char * out, const long size) {
        if(out && (long) what.size() <= size) {
            std::memcpy(out, what.data(), what.size());
        }
        return what.size();
    }
}
VT_API long vts3_log(char * out, long size) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    return give(s.log, out, size);
}
VT_API long vts3_identities(char * out, long size) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    std::string all;
    for(const auto & i : s.identities) all += i + "\n";
    return give(all, out, size);
}
// all objects of a bucket: (key length, key, content length, content)*, lengths as 8 byte little endian
VT_API long vts3_dump(const char * bucket, char * out, long size) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    std::string all;
    const auto put = [&all](const std::string & what) {
        const uint64_t n = what.size();
        all.append((const char *) &n, 8);
        all += what;
    };
    for(const auto & kv : s.buckets[bucket]) {
        put(kv.first);
        put(kv.second);
    }
    return give(all, out, size);
}
VT_API void vts3_put(const char * bucket, const char * key, const char * data, long size) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    s.buckets[bucket][key] = std::string(data, size);
}
VT_API void vts3_delete(const char * bucket, const char * key) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    s.buckets[bucket].erase(key);
}
VT_API void vts3_bucket(const char * bucket) {
    Service & s = service();
    std::lock_guard<std::mutex> lock(s.mutex);
    s.buckets[bucket];
}
