"""Workload profiles: where each property's histories put their weight."""

from pv import workload

P = workload.profile

PROFILES = {
    "mix": P(),
    "churn": P(n_clients=4, n_sids=4, steps=(80, 260),
               weights={"publish": 20, "republish": 26, "unpublish": 12, "close": 8, "reconnect": 8, "subscribe": 12,
                        "stall": 1, "nohello": 0, "tareuse": 0.3, "rehello": 0.3}),
    "notify": P(n_clients=5, n_sids=5, limits=0.1, v2=0.2,
                weights={"subscribe": 22, "unsubscribe": 7, "publish": 18, "republish": 24, "unpublish": 10,
                         "close": 6, "deadline": 7, "nohello": 0, "rehello": 0.3, "rawconnect": 0.3},
                episodes=["reclaim", "transfer", "generations", "batch", "slow", "many"]),
    "records": P(n_clients=5, n_sids=3, limits=0.05, ttls=[1, 2, 2, 3, 5, 10, 40, 1000],
                 weights={"publish": 18, "republish": 40, "unpublish": 10, "services": 12, "subscribe": 6,
                          "nohello": 0, "stall": 0.5, "rawconnect": 0.2},
                 episodes=["transfer", "reclaim", "binding", "generations"]),
    "orphans": P(n_clients=4, n_sids=4, limits=0.05, ttls=[0, 0, 1, 1, 2, 3, 4, 6, 10],
                 weights={"close": 10, "reset": 4, "reconnect": 12, "deadline": 14, "late": 5, "services": 8,
                          "republish": 20, "episode": 12, "nohello": 0},
                 episodes=["reclaim", "reclaim", "generations", "generations", "transfer", "binding", "many"]),
    "users": P(n_clients=4, n_sids=3, n_subids=4, limits=0.1, sockets=(2, 3),
               weights={"publish": 14, "republish": 26, "unpublish": 16, "unsubscribe": 14, "subscribe": 12,
                        "reconnect": 10, "close": 8, "episode": 10},
               episodes=["binding", "binding", "transfer", "generations", "reclaim"]),
    "limits": P(n_clients=6, n_sids=6, limits=1.0,
                weights={"connect": 22, "publish": 24, "subscribe": 20, "unsubscribe": 8, "unpublish": 10,
                         "close": 9, "episode": 14, "nohello": 2, "accepterr": 3},
                episodes=["limits", "limits", "limits", "squat", "batch", "transfer", "generations"]),
    "hostile": P(weights={"hostile": 40, "fault": 6, "subscribe": 10, "services": 5, "stall": 3}, steps=(60, 180)),
    "faults": P(weights={"fault": 22, "hostile": 6, "reset": 8, "stall": 6, "late": 3}, limits=0.4),
    "replies": P(n_clients=5, limits=0.3,
                 weights={"pipeline": 10, "tareuse": 8, "subscriptions": 8, "services": 9, "clients": 8, "track": 4,
                          "query": 4, "nohello": 4, "rehello": 4, "hostile": 5, "unsubscribe": 8, "stall": 4,
                          "unstall": 5}),
    "hello": P(n_clients=4, steps=(50, 160), limits=0.4,
               weights={"connect": 20, "rehello": 10, "nohello": 8, "close": 10, "reconnect": 6, "episode": 16},
               episodes=["hello", "hello", "hello", "dup", "binding", "limits", "squat"]),
    "idle": P(n_clients=4, steps=(40, 140), limits=0.05, keepalive=0.25, v2=0.12, lateness=0.2,
              weights={"deadline": 26, "sleep": 8, "track": 6, "query": 4, "publish": 12, "unpublish": 6,
                       "republish": 10, "close": 2, "idlebehave": 4, "episode": 8, "ping": 5, "late": 2,
                       "nohello": 0, "hostile": 0, "connect": 12},
              episodes=["track", "track", "dup", "transfer", "reclaim", "many", "many"], ttls=[1, 2, 3, 4, 5, 6, 8, 12, 20, 40]),
    "dup": P(n_clients=3, steps=(50, 160), keepalive=0.3, v2=0.2,
             weights={"connect": 14, "reconnect": 18, "rehello": 6, "episode": 18, "track": 4, "deadline": 10,
                      "publish": 10, "subscribe": 8},
             episodes=["dup", "dup", "dup", "binding", "generations", "hello"]),
    "slow": P(n_clients=4, steps=(40, 120), limits=0.05, keepalive=0.3,
              weights={"stall": 12, "unstall": 14, "pipeline": 12, "subscribe": 14, "publish": 16, "episode": 12,
                       "deadline": 2, "nohello": 0, "late": 1},
              episodes=["slow", "slow", "slow", "batch"]),
    "squat": P(steps=(40, 120), limits=0.8, sockets=(1, 3),
               weights={"rawconnect": 16, "nohello": 8, "connect": 14, "close": 10, "sleep": 16, "episode": 14,
                        "deadline": 8, "reset": 3, "accepterr": 5, "fault": 1},
               episodes=["squat", "squat", "squat", "limits", "hello", "batch", "crowd"]),
    "listings": P(n_clients=6, n_sids=8, n_subids=8, limits=0.05,
                  weights={"services": 22, "subscriptions": 14, "clients": 16, "publish": 22, "subscribe": 14,
                           "unsubscribe": 6, "close": 6, "reconnect": 5, "track": 5, "sleep": 10, "nohello": 0},
                  episodes=["track", "transfer", "reclaim", "binding", "generations", "slow", "many", "crowd"]),
    "domains": P(domains=(2, 4), sockets=(1, 3), n_clients=4, n_sids=3, n_subids=3, big_ids=0.1, limits=0.6,
                 steps=(80, 260),
                 weights={"connect": 20, "publish": 20, "subscribe": 14, "services": 8, "subscriptions": 4,
                          "clients": 4, "fault": 1, "accepterr": 1.5},
                 episodes=["limits", "reclaim", "transfer", "binding", "batch", "squat", "dup"]),
    "onedomain": P(domains=(1, 1), sockets=(1, 1), n_clients=4, n_sids=3, n_subids=3, big_ids=0.1, limits=0.6,
                   steps=(80, 260),
                   weights={"connect": 20, "publish": 20, "subscribe": 14, "services": 8, "subscriptions": 4,
                            "clients": 4, "fault": 1, "accepterr": 1.5},
                   episodes=["limits", "reclaim", "transfer", "binding", "batch", "squat", "dup"]),
    "terminate": P(domains=(1, 3), sockets=(1, 3), steps=(3, 90), settle_end=0.0,
                   weights={"stall": 6, "rawconnect": 6, "track": 4, "late": 4, "hostile": 3, "pipeline": 5}),
    "track": P(n_clients=4, steps=(40, 140), limits=0.05, v2=0.15, keepalive=0.4,
               weights={"track": 12, "query": 16, "clients": 8, "deadline": 12, "episode": 14, "hostile": 3,
                        "nohello": 0.5, "stall": 3, "unstall": 4, "publish": 8},
               episodes=["track", "track", "track", "dup"]),
    "empty": P(steps=(30, 120), settle_end=1.0, empty_end=1.0, domains=(1, 2), sockets=(1, 2),
               weights={"close": 10, "reset": 4, "reconnect": 8, "hostile": 2, "track": 4, "rawconnect": 4,
                        "stall": 4, "fault": 2}),
    "values": P(n_clients=4, n_sids=5, limits=0.0, big_ids=0.8, v2=0.3,
                weights={"publish": 30, "republish": 16, "services": 14, "subscribe": 12, "subscriptions": 6,
                         "clients": 4, "hostile": 14, "close": 5, "nohello": 0.3},
                episodes=["transfer", "reclaim", "generations"]),
    "batch": P(steps=(50, 160), domains=(1, 2), sockets=(1, 3),
               weights={"late": 8, "episode": 14, "rawconnect": 5, "close": 9, "reset": 4, "stall": 4, "unstall": 6,
                        "pipeline": 5},
               episodes=["batch", "batch", "batch", "slow", "squat", "limits", "crowd", "many"]),
}
