----------------------------- MODULE OfxStatus -----------------------------
(***************************************************************************)
(* The OFX status codes: code, severity and meaning.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

StatusTable == <<
  <<0, "INFO", "Success">>,
  <<1, "INFO", "Client is up-to-date">>,
  <<2000, "ERROR", "General error">>,
  <<2001, "ERROR", "Invalid account">>,
  <<2002, "ERROR", "General account error">>,
  <<2003, "ERROR", "Account not found">>,
  <<2004, "ERROR", "Account closed">>,
  <<2005, "ERROR", "Account not authorized">>,
  <<2006, "ERROR", "Source account not found">>,
  <<2007, "ERROR", "Source account closed">>,
  <<2008, "ERROR", "Source account not authorized">>,
  <<2009, "ERROR", "Destination account not found">>,
  <<2010, "ERROR", "Destination account closed">>,
  <<2011, "ERROR", "Destination account not authorized">>,
  <<2012, "ERROR", "Invalid amount">>,
  <<2014, "ERROR", "Date too soon">>,
  <<2015, "ERROR", "Date too far in future">>,
  <<2016, "ERROR", "Transaction already committed">>,
  <<2017, "ERROR", "Already canceled">>,
  <<2018, "ERROR", "Unknown server ID">>,
  <<2019, "ERROR", "Duplicate request">>,
  <<2020, "ERROR", "Invalid date">>,
  <<2021, "ERROR", "Unsupported version">>,
  <<2022, "ERROR", "Invalid TAN">>,
  <<2023, "ERROR", "Unknown FITID">>,
  <<2025, "ERROR", "Branch ID missing">>,
  <<2026, "ERROR", "Bank name doesn’t match bank ID">>,
  <<2027, "ERROR", "Invalid date range">>,
  <<2028, "WARN", "Requested element unknown">>,
  <<3000, "ERROR", "MFA Challenge authentication required">>,
  <<3001, "ERROR", "MFA Challenge information is invalid">>,
  <<6500, "ERROR", "<REJECTIFMISSING>Y invalid without <TOKEN>">>,
  <<6501, "WARN", "Embedded transactions in request failed to process: Out of date">>,
  <<6502, "ERROR", "Unable to process embedded transaction due to out-of-date <TOKEN>">>,
  <<10000, "INFO", "Stop check in process">>,
  <<10500, "ERROR", "Too many checks to process">>,
  <<10501, "ERROR", "Invalid payee">>,
  <<10502, "ERROR", "Invalid payee address">>,
  <<10503, "ERROR", "Invalid payee account number">>,
  <<10504, "ERROR", "Insufficient funds">>,
  <<10505, "ERROR", "Cannot modify element">>,
  <<10506, "ERROR", "Cannot modify source account">>,
  <<10507, "ERROR", "Cannot modify destination account">>,
  <<10508, "ERROR", "Invalid frequency">>,
  <<10509, "ERROR", "Model already canceled">>,
  <<10510, "ERROR", "Invalid payee ID">>,
  <<10511, "ERROR", "Invalid payee city">>,
  <<10512, "ERROR", "Invalid payee state">>,
  <<10513, "ERROR", "Invalid payee postal code">>,
  <<10514, "ERROR", "Transaction already processed">>,
  <<10515, "ERROR", "Payee not modifiable by client">>,
  <<10516, "ERROR", "Wire beneficiary invalid">>,
  <<10517, "ERROR", "Invalid payee name">>,
  <<10518, "ERROR", "Unknown model ID">>,
  <<10519, "ERROR", "Invalid payee list ID">>,
  <<10600, "ERROR", "Table type not found">>,
  <<12250, "WARN", "Investment transaction download not supported">>,
  <<12251, "WARN", "Investment position download not supported">>,
  <<12252, "WARN", "Investment positions for specified date not available">>,
  <<12253, "WARN", "Investment open order download not supported">>,
  <<12254, "WARN", "Investment balances download not supported">>,
  <<12255, "ERROR", "401(k) not available for this account">>,
  <<12500, "ERROR", "One or more securities not found">>,
  <<13000, "INFO", "User ID & password will be sent out-of-band">>,
  <<13500, "ERROR", "Unable to enroll user">>,
  <<13501, "ERROR", "User already enrolled">>,
  <<13502, "ERROR", "Invalid service">>,
  <<13503, "ERROR", "Cannot change user information">>,
  <<13504, "ERROR", "<FI> Missing or Invalid in <SONRQ>">>,
  <<14500, "ERROR", "1099 forms not available">>,
  <<14501, "ERROR", "1099 forms not available for user ID">>,
  <<14600, "ERROR", "W2 forms not available">>,
  <<14601, "ERROR", "W2 forms not available for user ID">>,
  <<14700, "ERROR", "1098 forms not available">>,
  <<14701, "ERROR", "1098 forms not available for user ID">>,
  <<15000, "INFO", "Must change USERPASS">>,
  <<15500, "ERROR", "Signon invalid">>,
  <<15501, "ERROR", "Customer account already in use">>,
  <<15502, "ERROR", "USERPASS lockout">>,
  <<15503, "ERROR", "Could not change USERPASS">>,
  <<15504, "ERROR", "Could not provide random data">>,
  <<15505, "ERROR", "Country system not supported">>,
  <<15506, "ERROR", "Empty signon not supported">>,
  <<15507, "ERROR", "Signon invalid without supporting pin change request">>,
  <<15508, "ERROR", "Transaction not authorized. ">>,
  <<15510, "ERROR", "CLIENTUID error">>,
  <<15511, "ERROR", "MFA error">>,
  <<15512, "ERROR", "AUTHTOKEN required">>,
  <<15513, "ERROR", "AUTHTOKEN invalid">>,
  <<16500, "ERROR", "HTML not allowed">>,
  <<16501, "ERROR", "Unknown mail To:">>,
  <<16502, "ERROR", "Invalid URL">>,
  <<16503, "ERROR", "Unable to get URL">>>>
Severities == {"INFO", "WARN", "ERROR"}
StatusCodes == [i \in 1..Len(StatusTable) |-> StatusTable[i][1]]
KnownCodes == {StatusCodes[i] : i \in 1..Len(StatusCodes)}
StatusRow == [c \in KnownCodes |-> StatusTable[CHOOSE i \in 1..Len(StatusTable) : StatusTable[i][1] = c]]
StatusSeverity(c) == IF c \in KnownCodes THEN StatusRow[c][2] ELSE "ERROR"
StatusMeaning(c) == StatusRow[c][3]
StatusValid(code, severity) == severity \in Severities /\ code \in KnownCodes /\ severity = StatusSeverity(code)
=============================================================================
