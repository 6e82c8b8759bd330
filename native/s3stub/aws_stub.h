// Stand-in for the parts of the AWS C++ SDK that z5 uses (the SDK is not installed here and
// there is no network): the declarations follow the SDK, the service behind them is an
// in-memory object store with the documented semantics of S3 (s3stub.cxx), which can be told
// to page, delay, fail and log.
#pragma once
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <map>

namespace Aws {
    using String = std::string;
    using StringStream = std::stringstream;
    using IOStream = std::iostream;
    template<class T> using Vector = std::vector<T>;
    template<class K, class V> using Map = std::map<K, V>;

    template<class T, class ... ARGS>
    std::shared_ptr<T> MakeShared(const char *, ARGS && ... args) {
        return std::make_shared<T>(std::forward<ARGS>(args)...);
    }

    namespace Utils { namespace Logging {
        enum class LogLevel : int {Off = 0, Fatal = 1, Error = 2, Warn = 3, Info = 4, Debug = 5, Trace = 6};
        class LogSystemInterface {
        public:
            virtual ~LogSystemInterface() = default;
        };
        class ConsoleLogSystem : public LogSystemInterface {
        public:
            explicit ConsoleLogSystem(LogLevel) {}
            ConsoleLogSystem(const char *, LogLevel) {}
        };
    }}

    struct LoggingOptions {
        Utils::Logging::LogLevel logLevel = Utils::Logging::LogLevel::Off;
        std::function<std::shared_ptr<Utils::Logging::LogSystemInterface>()> logger_create_fn;
    };
    struct HttpOptions {bool installSigPipeHandler = false; bool initAndCleanupCurl = true;};
    struct SDKOptions {LoggingOptions loggingOptions; HttpOptions httpOptions;};
    void InitAPI(const SDKOptions &);
    void ShutdownAPI(const SDKOptions &);

    namespace Http {
        enum class HttpResponseCode {REQUEST_NOT_MADE = -1, OK = 200, PARTIAL_CONTENT = 206, BAD_REQUEST = 400, UNAUTHORIZED = 401,
                                     FORBIDDEN = 403, NOT_FOUND = 404, CONFLICT = 409, PRECONDITION_FAILED = 412,
                                     TOO_MANY_REQUESTS = 429, INTERNAL_SERVER_ERROR = 500, SERVICE_UNAVAILABLE = 503,
                                     GATEWAY_TIMEOUT = 504};
        enum class Scheme {HTTP, HTTPS};
    }

    namespace Auth {
        class AWSCredentials {
        public:
            AWSCredentials() {}
            AWSCredentials(const String & id, const String & secret) : id_(id), secret_(secret) {}
            const String & GetAWSAccessKeyId() const {return id_;}
            const String & GetAWSSecretKey() const {return secret_;}
        private:
            String id_, secret_;
        };
        class AWSCredentialsProvider {
        public:
            virtual ~AWSCredentialsProvider() = default;
            virtual AWSCredentials GetAWSCredentials() {return AWSCredentials();}
        };
        class AnonymousAWSCredentialsProvider : public AWSCredentialsProvider {};
        class SimpleAWSCredentialsProvider : public AWSCredentialsProvider {
        public:
            SimpleAWSCredentialsProvider(const String & id, const String & secret, const String & = "") : credentials_(id, secret) {}
            explicit SimpleAWSCredentialsProvider(const AWSCredentials & credentials) : credentials_(credentials) {}
            AWSCredentials GetAWSCredentials() override {return credentials_;}
        private:
            AWSCredentials credentials_;
        };
        class DefaultAWSCredentialsProviderChain : public AWSCredentialsProvider {
        public:
            AWSCredentials GetAWSCredentials() override {return AWSCredentials("default", "default");}
        };
    }

    namespace Client {
        template<class ERROR_TYPE>
        class AWSError {
        public:
            AWSError() : type_(ERROR_TYPE()), code_(Http::HttpResponseCode::OK), retry_(false) {}
            AWSError(ERROR_TYPE type, const String & name, const String & message, bool retry)
                : type_(type), name_(name), message_(message), code_(Http::HttpResponseCode::REQUEST_NOT_MADE), retry_(retry) {}
            ERROR_TYPE GetErrorType() const {return type_;}
            const String & GetExceptionName() const {return name_;}
            const String & GetMessage() const {return message_;}
            void SetMessage(const String & message) {message_ = message;}
            Http::HttpResponseCode GetResponseCode() const {return code_;}
            void SetResponseCode(Http::HttpResponseCode code) {code_ = code;}
            bool ShouldRetry() const {return retry_;}
        private:
            ERROR_TYPE type_;
            String name_, message_;
            Http::HttpResponseCode code_;
            bool retry_;
        };

        struct ClientConfigurationInitValues {bool shouldDisableIMDS = false;};
        struct ClientConfiguration {
            ClientConfiguration() {}
            explicit ClientConfiguration(const ClientConfigurationInitValues &) {}
            String region = "us-east-1";
            Http::Scheme scheme = Http::Scheme::HTTPS;
            String endpointOverride;
            long connectTimeoutMs = 1000, requestTimeoutMs = 3000, httpRequestTimeoutMs = 0;
            unsigned maxConnections = 25;
            bool verifySSL = true, disableIMDS = false;
        };
    }

    namespace Utils {
        template<class R, class E>
        class Outcome {
        public:
            Outcome() : success_(false) {}
            Outcome(R && r) : result_(std::move(r)), success_(true) {}
            Outcome(const R & r) : result_(r), success_(true) {}
            Outcome(const E & e) : error_(e), success_(false) {}
            Outcome(Outcome &&) = default;
            Outcome & operator=(Outcome &&) = default;
            Outcome(const Outcome &) = default;
            Outcome & operator=(const Outcome &) = default;
            bool IsSuccess() const {return success_;}
            const R & GetResult() const {return result_;}
            R & GetResult() {return result_;}
            R && GetResultWithOwnership() {return std::move(result_);}
            const E & GetError() const {return error_;}
        private:
            R result_;
            E error_;
            bool success_;
        };
    }

namespace S3 {
    enum class S3Errors {INCOMPLETE_SIGNATURE = 0, INTERNAL_FAILURE = 1, INVALID_ACTION = 2, ACCESS_DENIED = 15, RESOURCE_NOT_FOUND = 16,
                         SLOW_DOWN = 18, REQUEST_TIMEOUT = 24, NETWORK_CONNECTION = 99, UNKNOWN = 100,
                         BUCKET_ALREADY_EXISTS = 129, BUCKET_ALREADY_OWNED_BY_YOU = 130, NO_SUCH_BUCKET = 134, NO_SUCH_KEY = 135,
                         NO_SUCH_UPLOAD = 136, OBJECT_NOT_IN_ACTIVE_TIER = 138};
    using S3Error = Client::AWSError<S3Errors>;

    struct S3ClientConfiguration : public Client::ClientConfiguration {
        S3ClientConfiguration() {}
        explicit S3ClientConfiguration(const Client::ClientConfigurationInitValues & v) : Client::ClientConfiguration(v) {}
        bool useVirtualAddressing = true;
    };
    class S3EndpointProviderBase {
    public:
        virtual ~S3EndpointProviderBase() = default;
    };
    class S3EndpointProvider : public S3EndpointProviderBase {};

namespace Model {
    #define VT_FIELD(CLASS, TYPE, NAME) \
        public: const TYPE & Get##NAME() const {return NAME##_;} \
        bool NAME##HasBeenSet() const {return NAME##Set_;} \
        void Set##NAME(const TYPE & v) {NAME##_ = v; NAME##Set_ = true;} \
        CLASS & With##NAME(const TYPE & v) {Set##NAME(v); return *this;} \
        private: TYPE NAME##_ {}; bool NAME##Set_ = false;

    class Object {
        VT_FIELD(Object, String, Key)
        VT_FIELD(Object, long long, Size)
        VT_FIELD(Object, String, ETag)
    };
    class CommonPrefix {
        VT_FIELD(CommonPrefix, String, Prefix)
    };
    class ObjectIdentifier {
        VT_FIELD(ObjectIdentifier, String, Key)
        VT_FIELD(ObjectIdentifier, String, VersionId)
    };
    class Error {
        VT_FIELD(Error, String, Key)
        VT_FIELD(Error, String, Code)
        VT_FIELD(Error, String, Message)
    };
    class DeletedObject {
        VT_FIELD(DeletedObject, String, Key)
    };
    class Delete {
        VT_FIELD(Delete, Vector<ObjectIdentifier>, Objects)
        VT_FIELD(Delete, bool, Quiet)
    public:
        Delete & AddObjects(const ObjectIdentifier & o) {Objects_.push_back(o); ObjectsSet_ = true; return *this;}
    };

    class StreamingRequest {
    public:
        void SetBody(const std::shared_ptr<IOStream> & body) {body_ = body;}
        const std::shared_ptr<IOStream> & GetBody() const {return body_;}
    private:
        std::shared_ptr<IOStream> body_;
    };

    class GetObjectRequest {
        VT_FIELD(GetObjectRequest, String, Bucket)
        VT_FIELD(GetObjectRequest, String, Key)
        VT_FIELD(GetObjectRequest, String, Range)
    };
    class HeadObjectRequest {
        VT_FIELD(HeadObjectRequest, String, Bucket)
        VT_FIELD(HeadObjectRequest, String, Key)
    };
    class PutObjectRequest : public StreamingRequest {
        VT_FIELD(PutObjectRequest, String, Bucket)
        VT_FIELD(PutObjectRequest, String, Key)
        VT_FIELD(PutObjectRequest, String, ContentType)
        VT_FIELD(PutObjectRequest, long long, ContentLength)
    };
    class DeleteObjectRequest {
        VT_FIELD(DeleteObjectRequest, String, Bucket)
        VT_FIELD(DeleteObjectRequest, String, Key)
    };
    class DeleteObjectsRequest {
        VT_FIELD(DeleteObjectsRequest, String, Bucket)
        VT_FIELD(DeleteObjectsRequest, Model::Delete, Delete)
    };
    class ListObjectsV2Request {
        VT_FIELD(ListObjectsV2Request, String, Bucket)
        VT_FIELD(ListObjectsV2Request, String, Prefix)
        VT_FIELD(ListObjectsV2Request, String, Delimiter)
        VT_FIELD(ListObjectsV2Request, int, MaxKeys)
        VT_FIELD(ListObjectsV2Request, String, ContinuationToken)
        VT_FIELD(ListObjectsV2Request, String, StartAfter)
    };
    class ListObjectsV2Result {
        VT_FIELD(ListObjectsV2Result, bool, IsTruncated)
        VT_FIELD(ListObjectsV2Result, Vector<Object>, Contents)
        VT_FIELD(ListObjectsV2Result, Vector<CommonPrefix>, CommonPrefixes)
        VT_FIELD(ListObjectsV2Result, int, KeyCount)
        VT_FIELD(ListObjectsV2Result, String, NextContinuationToken)
    };
    class GetObjectResult {
        VT_FIELD(GetObjectResult, long long, ContentLength)
        VT_FIELD(GetObjectResult, String, ETag)
    public:
        IOStream & GetBody() const {return *body_;}
        void ReplaceBody(std::shared_ptr<IOStream> body) {body_ = body;}
    private:
        std::shared_ptr<IOStream> body_;
    };
    class HeadObjectResult {
        VT_FIELD(HeadObjectResult, long long, ContentLength)
        VT_FIELD(HeadObjectResult, String, ETag)
    };
    class PutObjectResult {
        VT_FIELD(PutObjectResult, String, ETag)
    };
    class DeleteObjectResult {
        VT_FIELD(DeleteObjectResult, bool, DeleteMarker)
    };
    class DeleteObjectsResult {
        VT_FIELD(DeleteObjectsResult, Vector<DeletedObject>, Deleted)
        VT_FIELD(DeleteObjectsResult, Vector<Error>, Errors)
    };
    #undef VT_FIELD

    using GetObjectOutcome = Utils::Outcome<GetObjectResult, S3Error>;
    using HeadObjectOutcome = Utils::Outcome<HeadObjectResult, S3Error>;
    using PutObjectOutcome = Utils::Outcome<PutObjectResult, S3Error>;
    using DeleteObjectOutcome = Utils::Outcome<DeleteObjectResult, S3Error>;
    using DeleteObjectsOutcome = Utils::Outcome<DeleteObjectsResult, S3Error>;
    using ListObjectsV2Outcome = Utils::Outcome<ListObjectsV2Result, S3Error>;
}

    class S3Client {
    public:
        S3Client(const std::shared_ptr<Auth::AWSCredentialsProvider> & credentials,
                 std::shared_ptr<S3EndpointProviderBase> endpointProvider,
                 const S3ClientConfiguration & config);
        explicit S3Client(const S3ClientConfiguration & config = S3ClientConfiguration());
        ~S3Client();
        S3Client(const S3Client & other);
        Model::GetObjectOutcome GetObject(const Model::GetObjectRequest &) const;
        Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest &) const;
        Model::PutObjectOutcome PutObject(const Model::PutObjectRequest &) const;
        Model::DeleteObjectOutcome DeleteObject(const Model::DeleteObjectRequest &) const;
        Model::DeleteObjectsOutcome DeleteObjects(const Model::DeleteObjectsRequest &) const;
        Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request &) const;
    private:
        std::string identity_;   // who asks for what: endpoint, region, credentials
    };
}
}
