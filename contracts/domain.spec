# Registries of item categories, data types and answers (C20).
# The category table is the one of the OPVault design, written down independently of the code.

def catOf(c: str) -> *domain.ItemCategory:
    (ItemCategoryEnum.Login if c == "001"
        else ItemCategoryEnum.CreditCard if c == "002"
        else ItemCategoryEnum.SecureNote if c == "003"
        else ItemCategoryEnum.Identity if c == "004"
        else ItemCategoryEnum.Password if c == "005"
        else ItemCategoryEnum.Tombstone if c == "099"
        else ItemCategoryEnum.SoftwareLicense if c == "100"
        else ItemCategoryEnum.BankAccount if c == "101"
        else ItemCategoryEnum.Database if c == "102"
        else ItemCategoryEnum.DriverLicense if c == "103"
        else ItemCategoryEnum.OutdoorLicense if c == "104"
        else ItemCategoryEnum.Membership if c == "105"
        else ItemCategoryEnum.Passport if c == "106"
        else ItemCategoryEnum.Rewards if c == "107"
        else ItemCategoryEnum.Ssn if c == "108"
        else ItemCategoryEnum.Router if c == "109"
        else ItemCategoryEnum.Server if c == "110"
        else ItemCategoryEnum.Email if c == "111"
        else None)

def catNamed(n: str) -> *domain.ItemCategory:
    (ItemCategoryEnum.Login if n == "login"
        else ItemCategoryEnum.CreditCard if n == "credit card"
        else ItemCategoryEnum.SecureNote if n == "secure note"
        else ItemCategoryEnum.Identity if n == "identity"
        else ItemCategoryEnum.Password if n == "password"
        else ItemCategoryEnum.Tombstone if n == "tombstone"
        else ItemCategoryEnum.SoftwareLicense if n == "software license"
        else ItemCategoryEnum.BankAccount if n == "bank account"
        else ItemCategoryEnum.Database if n == "database"
        else ItemCategoryEnum.DriverLicense if n == "driver license"
        else ItemCategoryEnum.OutdoorLicense if n == "outdoor license"
        else ItemCategoryEnum.Membership if n == "membership"
        else ItemCategoryEnum.Passport if n == "passport"
        else ItemCategoryEnum.Rewards if n == "rewards"
        else ItemCategoryEnum.Ssn if n == "ssn"
        else ItemCategoryEnum.Router if n == "router"
        else ItemCategoryEnum.Server if n == "server"
        else ItemCategoryEnum.Email if n == "email"
        else None)

# every registered category carries its own code and name
inv catcodes:
    ItemCategoryEnum.Login.code == "001" and ItemCategoryEnum.Login.name == "Login"
        and ItemCategoryEnum.CreditCard.code == "002" and ItemCategoryEnum.CreditCard.name == "Credit Card"
        and ItemCategoryEnum.SecureNote.code == "003" and ItemCategoryEnum.SecureNote.name == "Secure Note"
        and ItemCategoryEnum.Identity.code == "004" and ItemCategoryEnum.Identity.name == "Identity"
        and ItemCategoryEnum.Password.code == "005" and ItemCategoryEnum.Password.name == "Password"
        and ItemCategoryEnum.Tombstone.code == "099" and ItemCategoryEnum.Tombstone.name == "Tombstone"
        and ItemCategoryEnum.SoftwareLicense.code == "100" and ItemCategoryEnum.SoftwareLicense.name == "Software License"
        and ItemCategoryEnum.BankAccount.code == "101" and ItemCategoryEnum.BankAccount.name == "Bank Account"
        and ItemCategoryEnum.Database.code == "102" and ItemCategoryEnum.Database.name == "Database"
        and ItemCategoryEnum.DriverLicense.code == "103" and ItemCategoryEnum.DriverLicense.name == "Driver License"
        and ItemCategoryEnum.OutdoorLicense.code == "104" and ItemCategoryEnum.OutdoorLicense.name == "Outdoor License"
        and ItemCategoryEnum.Membership.code == "105" and ItemCategoryEnum.Membership.name == "Membership"
        and ItemCategoryEnum.Passport.code == "106" and ItemCategoryEnum.Passport.name == "Passport"
        and ItemCategoryEnum.Rewards.code == "107" and ItemCategoryEnum.Rewards.name == "Rewards"
        and ItemCategoryEnum.Ssn.code == "108" and ItemCategoryEnum.Ssn.name == "SSN"
        and ItemCategoryEnum.Router.code == "109" and ItemCategoryEnum.Router.name == "Router"
        and ItemCategoryEnum.Server.code == "110" and ItemCategoryEnum.Server.name == "Server"
        and ItemCategoryEnum.Email.code == "111" and ItemCategoryEnum.Email.name == "Email"

# the list of registered categories holds each of them, in any order, and nothing else
inv catvalues:
    len(ItemCategoryEnum.values) == 18
        and all(catOf(ItemCategoryEnum.values[k].code) == ItemCategoryEnum.values[k] and catNamed(tolower(ItemCategoryEnum.values[k].name)) == ItemCategoryEnum.values[k]
        and ItemCategoryEnum.values[k] != None for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Login for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.CreditCard for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.SecureNote for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Identity for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Password for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Tombstone for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.SoftwareLicense for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.BankAccount for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Database for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.DriverLicense for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.OutdoorLicense for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Membership for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Passport for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Rewards for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Ssn for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Router for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Server for k in range(18))
        and any(ItemCategoryEnum.values[k] == ItemCategoryEnum.Email for k in range(18))

def typeNamed(n: str) -> *domain.DataType:
    (DataTypeEnum.Address if n == "address" else DataTypeEnum.Date if n == "date" else DataTypeEnum.MonthYear if n == "monthyear" else None)

inv typevalues:
    len(DataTypeEnum.values) == 3
        and all(typeNamed(tolower(DataTypeEnum.values[k].name)) == DataTypeEnum.values[k] and DataTypeEnum.values[k] != None for k in range(3))
        and any(DataTypeEnum.values[k] == DataTypeEnum.Address for k in range(3))
        and any(DataTypeEnum.values[k] == DataTypeEnum.Date for k in range(3))
        and any(DataTypeEnum.values[k] == DataTypeEnum.MonthYear for k in range(3))

def answerNamed(n: str) -> *domain.LogicVal:
    (LogicValEnum.Yes if n == "y" else LogicValEnum.No if n == "n" else None)

inv answervalues:
    LogicValEnum.Yes.value and not LogicValEnum.No.value
        and LogicValEnum.Yes.name == "y" and LogicValEnum.No.name == "n"
        and len(LogicValEnum.values) == 2
        and all(answerNamed(tolower(LogicValEnum.values[k].name)) == LogicValEnum.values[k] and LogicValEnum.values[k] != None for k in range(2))
        and any(LogicValEnum.values[k] == LogicValEnum.Yes for k in range(2))
        and any(LogicValEnum.values[k] == LogicValEnum.No for k in range(2))

func itemCategoryRegistry.FromCode(self, code) -> cat, err
    props C20
    ensures cat == catOf(code)
    ensures iff(err == None, catOf(code) != None)
    ensures imp(err != None, err == ErrUnknownItemCat)
    ensures imp(cat != None, cat.code == code)

func itemCategoryRegistry.FromName(self, name) -> cat, err
    props C20
    ensures cat == catNamed(tolower(name))
    ensures iff(err == None, catNamed(tolower(name)) != None)
    ensures imp(err != None, err == ErrUnknownItemCat)

func dataTypeRegistry.FromName(self, name) -> dt, err
    props C20
    ensures dt == typeNamed(tolower(name))
    ensures iff(err == None, typeNamed(tolower(name)) != None)
    ensures imp(err != None, err == ErrUnknownDataType)

func logicValRegistry.FromName(self, name) -> lv, err
    props C20
    ensures lv == answerNamed(tolower(name))
    ensures iff(err == None, answerNamed(tolower(name)) != None)
    ensures imp(err != None, err == ErrUnknownLogicVal)

func logicValRegistry.FromValue(self, value) -> lv
    props C20
    ensures lv == (LogicValEnum.Yes if value else LogicValEnum.No)

func itemCategoryRegistry.GetValues(self) -> res
    props C20
    ensures len(res) == 18
    ensures all(res[k] == ItemCategoryEnum.values[k] for k in range(18))

func dataTypeRegistry.GetValues(self) -> res
    props C20
    ensures len(res) == 3
    ensures all(res[k] == DataTypeEnum.values[k] for k in range(3))

func logicValRegistry.GetValues(self) -> res
    props C20
    ensures len(res) == 2
    ensures all(res[k] == LogicValEnum.values[k] for k in range(2))

func ItemCategory.GetCode(self) -> r
    props C20
    ensures r == self.code

func ItemCategory.GetName(self) -> r
    props C20
    ensures r == self.name

func DataType.GetName(self) -> r
    props C20
    ensures r == self.name

func LogicVal.GetName(self) -> r
    props C20
    ensures r == self.name

func LogicVal.GetValue(self) -> r
    props C20
    ensures r == self.value
