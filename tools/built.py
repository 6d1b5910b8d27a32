H = "The specification's own invariants are exhaustive within the small scope of the model; agreement of the code with the specification is shown for every generated history (bounded), not proved for all. Trusts TLC, the projection in lib/ and the RFC tables, which were cross-checked with libnghttp2."
for i in ("C01", "C02", "C04", "C05", "C06"):
    BUILT[i] = (HPACK, H)
N = "The design model is exhaustive within its bounds (frames, calls, blocking, faults); agreement of the real connection with it is shown for every generated history, not proved for all. Trusts TLC, the scripted transport and the frame reader in lib/h2.py."
for i in ("C03", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"):
    BUILT[i] = (CONN, N)
WN = "The design models (RouterMC, StaticMC) are exhaustive within their bounds; agreement of the real router, static handler, statistics and access log with the specification is shown for every generated history. Trusts TLC and the projection in checks/."
for i in ("C15", "C16", "C17", "C18", "C19", "C20"):
    BUILT[i] = (WEB, WN)
SRV = "TLA+ (TLC): exhaustive exploration of the event loop's design (ServerMC, with liveness) and trace validation (ServerTrace, which holds a Conn machine per client) of the real Http2Server run on a simulated kernel, driven by model behaviours and generated histories"
SN = "The design model is exhaustive within its bounds and checked for progress properties under fairness; agreement of the real server with the specification is shown for every generated history of clients, errors, time and orders of events. Trusts TLC, the simulated sockets, epoll, poll and clock in harness/sim_driver.cpp, and the projection in checks/server_checks.py."
for i in ("C22", "C23", "C24", "C25", "C26", "C27"):
    BUILT[i] = (SRV, SN)
BUILT["C30"] = ("TLA+ (TLC): trace validation (ServerTrace with its TLS events, a Conn machine per client) of the real Http2Server serving TLS on a simulated kernel to OpenSSL clients, driven by behaviours of ServerMC and generated histories", SN + " Clients are OpenSSL engines in the harness; OpenSSL itself is trusted.")
BUILT["C28"] = ("TLA+ (TLC): exhaustive exploration of registrations, readiness and polls (PollerMC) and trace validation (PollerTrace) of the real EPollPoller and PollPoller on real descriptors, driven by model behaviours and generated histories", "Readiness as ::poll() sees it just before and after each call is the reference; agreement is shown for every generated history. Trusts TLC and the kernel.")
BUILT["C29"] = ("TLA+ (TLC): exhaustive exploration of a transport over a socket pair and of descriptor ownership (TcpMC, OwnMC) and trace validation (TcpTrace, OwnTrace) of the real TcpTransport, TlsTransport, SocketFd and TcpListener on real sockets, driven by model behaviours and generated histories", "The peer of every socket is scripted by the harness, so what was sent, shut or reset is known. Agreement is shown for every generated history. Trusts TLC, the kernel and OpenSSL.")
BUILT["C21"] = ("TLA+ (TLC): exhaustive exploration of the program's command line, answers and endings (AppMC, with liveness) and trace validation (AppTrace) of the real ion-server binary, started with command lines and driven with requests, signals and misbehaving clients taken from the model and generated", "Built with an inert stand-in for OpenTelemetry and the installed CLI11. The menu of each option is finite; agreement is shown for every generated history of runs. Trusts TLC, lib/client.py and CLI11.")
for i in ("C17", "C18"):
    BUILT[i] = (WEB, WN + " The file tree is part of the state (StaticHist) and is changed between requests on a real directory; it does not change during a request.")
BUILT["C13"] = (CONN, N + " The whole server is also run with clients that leave (Http2Server on the simulated kernel, ServerTrace).")
