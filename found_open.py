OPEN = [
 {"property": "P08", "status": "open", "mech": "stored-running-step", "where": {"kind": "worker"},
  "what": "a time-limited run stores, for every slot, the algorithm's state after the step that was running when the slot's time came, not the last completed one its sample describes (simulation/worker.py TimeWorker.run_driver reads the algorithm when TimeRun emits, one step late)"},
]
