// Stands in for the QUIC connection (decided by C34 to C37) under the sample client; harness/app.cpp says what it does.
#pragma once
#include <bnl/base/buffer.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/quic/clock.hpp>
#include <bnl/quic/event.hpp>
#include <bnl/quic/params.hpp>
#include <bnl/quic/path.hpp>
#include <bnl/quic/result.hpp>
namespace bnl { namespace quic { namespace client {
class connection;
class generator { public: explicit generator(connection &c) : connection_(c) {} bool next(); result<event> get(); private: connection &connection_; };
class connection { public:
  connection(const ip::host &host, path path, const params &params, clock clock) noexcept; connection(connection &&) = default; connection &operator=(connection &&) = default;
  result<base::buffer> send(); result<generator> recv(base::buffer_view data); duration timeout() const noexcept; duration expiry() const noexcept; result<void> expire(); result<void> add(quic::event event);
  clock clock_; };
} } }
