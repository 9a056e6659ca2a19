INIT Init
NEXT Next
CONSTANTS ObsIds = {7, 3}  AltIds = {5, 2, 9}  MaxRows = 4  AllowDup = FALSE
INVARIANTS EveryRowHasOneObservationAndAlternative ChosenRowsAreOnePerObservation RoundTrip OneRowEach
CHECK_DEADLOCK FALSE
