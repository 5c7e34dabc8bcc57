class GoogleAPIError(Exception):
    pass


class GoogleAPICallError(GoogleAPIError):
    code = None

    def __init__(self, message, errors=(), details=(), response=None, error_info=None):
        super().__init__(message)
        self.message = message


class ClientError(GoogleAPICallError):
    pass


class NotFound(ClientError):
    code = 404


class Forbidden(ClientError):
    code = 403


class ServerError(GoogleAPICallError):
    pass


class InternalServerError(ServerError):
    code = 500


class ServiceUnavailable(ServerError):
    code = 503


class TooManyRequests(ClientError):
    code = 429


class RetryError(GoogleAPIError):
    def __init__(self, message, cause=None):
        super().__init__(message)
        self.cause = cause
