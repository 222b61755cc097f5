From 6abe4f79229bb4faa7da20a1cbaec55f9fef52c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 01/79] fix: grow last year's balance at last year's rate of
 return

---
 forecaster/accounts/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6f4fc12..bfad0a6 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -227,12 +227,14 @@ class Account(TaxSource):
         # This method isn't hidden in __init__; it's assigned to (by a
         # setter defined via metaclass)
 
-        # First, grow last year's initial balance based on the rate:
+        # First, grow last year's initial balance based on last year's
+        # rate (which might be different from this year's rate):
+        # pylint: disable=no-member
+        # Pylint gets confused by attributes added by metaclass.
+        rate = self.rate_history[self.this_year - 1]
         balance = value_at_time(
-            # pylint: disable=no-member
-            # Pylint gets confused by attributes added by metaclass.
             self._balance_history[self.this_year - 1],
-            self.rate, 'start', 'end', nper=self.nper,
+            rate, 'start', 'end', nper=self.nper,
             high_precision=self.high_precision)
 
         # Then, grow each transactions and add it to the year-end total.
@@ -243,7 +245,7 @@ class Account(TaxSource):
         transactions_history = self._transactions_history
         for when, value in transactions_history[self.this_year - 1].items():
             balance += value_at_time(
-                value, self.rate, when, 'end', nper=self.nper,
+                value, rate, when, 'end', nper=self.nper,
                 high_precision=self.high_precision)
 
         return balance
-- 
2.43.0


From 89e4c2b956f3096e1b4fd5da05b011b3360febd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 02/79] fix: return the transaction from Account.get

---
 forecaster/accounts/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index bfad0a6..e2f63a0 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -879,7 +879,7 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        self._transactions.get(key, default=default)
+        return self._transactions.get(key, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From c04436cd855955795ce777d7a19109f5beb56643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 03/79] fix: set linked outflow limits on the outflow links

---
 forecaster/accounts/linked_limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index ac5b669..e5b9b0a 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -111,7 +111,7 @@ class LinkedLimitAccount(Account):
     @max_outflow_limit.setter
     def max_outflow_limit(self, value):
         """ Sets max_outflow_limit. """
-        self._set_limit(self.max_inflow_link, value)
+        self._set_limit(self.max_outflow_link, value)
 
     @property
     def min_outflow_limit(self):
@@ -122,7 +122,7 @@ class LinkedLimitAccount(Account):
     @min_outflow_limit.setter
     def min_outflow_limit(self, value):
         """ Sets min_outflow_limit. """
-        self._set_limit(self.min_inflow_link, value)
+        self._set_limit(self.min_outflow_link, value)
 
     def _get_limit(self, link, default=None):
         """ Gets the limit for a given linked group of accounts.
-- 
2.43.0


From 5ff5e643fe42da625b7d00b20bfb5a3c72ac6647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 04/79] fix: determine ages correctly around leap days

---
 forecaster/person.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 0903948..c832788 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -381,8 +381,10 @@ class Person(TaxSource):
             date = parse(str(date), default=self.birth_date)
 
         # Remember to check whether the month/day are earlier in `date`
+        # (Find the birthday via `relativedelta`, which deals with leap
+        # years; a Feb. 29 birthday falls on Feb. 28 in other years.)
         age = date.year - self.birth_date.year
-        if date.replace(self.birth_date.year) < self.birth_date:
+        if date < self.birth_date + relativedelta(years=age):
             age -= 1
 
         # We allow age to be negative, if that's what the caller wants.
-- 
2.43.0


From 00c099a21f016fb8b2d84e8485816114466e31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 05/79] fix: unlink a new spouse from their former spouse

---
 forecaster/person.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/person.py b/forecaster/person.py
index c832788..d15472c 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -298,6 +298,9 @@ class Person(TaxSource):
             # pylint: disable=protected-access
             # spouse is a Person, so this isn't accessing a protected
             # member of a client class.
+            if val._spouse is not None:
+                # The new spouse can't stay linked to someone else.
+                val._spouse._spouse = None
             val._spouse = self  # Use _spouse to avoid recursion
 
         # Update the spouse attr whether or not the new value is None
-- 
2.43.0


From 6daee12c7fab6880330d1c067617d3500e7cd161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 06/79] fix: treat a raise rate of None as zero

---
 forecaster/person.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index d15472c..dc66aa6 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -254,7 +254,7 @@ class Person(TaxSource):
         # Treat setting the method to None as reverting to the default
         # rate parameter, which is Money(0).
         if val is None:
-            self.raise_rate_callable = 0
+            val = 0
         # Is raise_rate isn't callable, convert it to a suitable method:
         if not callable(val):  # Make callable if dict or scalar
             if isinstance(val, dict):
-- 
2.43.0


From de655288a8aa8e14f31928e79f8ee94243dc372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 07/79] fix: scale thresholds rather than rates in Tax.accum

---
 forecaster/tax.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 52b744e..772744d 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -215,10 +215,9 @@ class Tax(HighPrecisionOptional):
         # If we don't have this accum, we'll need to generate it.
         # add_brackets() does this for us.
         if year not in self._accum:
-            # Get the inflation-adjusted tax brackets for this year:
-            brackets = extend_inflation_adjusted(
-                self._tax_brackets, self.inflation_adjust, year)
-            self.add_brackets(brackets, year)
+            # Get the inflation-adjusted tax brackets for this year.
+            # (This calls `add_brackets` if they aren't known yet.)
+            self.tax_brackets(year)
         if bracket is None:
             return self._accum[year]
         return self._accum[year][bracket]
-- 
2.43.0


From 1a8954582221ed2097caf3a2aefada137c0cf6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 08/79] fix: count each deduction and credit of a person once

---
 forecaster/tax.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 772744d..3852c90 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -402,14 +402,10 @@ class Tax(HighPrecisionOptional):
             float: The tax liability of the person.
         """
         taxable_income = person.taxable_income_history[year]
-        deduction = (
-            person.tax_deduction_history[year]
-            + self.deduction(person, year)
-            + deduction)
-        credit = (
-            person.tax_credit_history[year]
-            + self.credit(person, year)
-            + credit)
+        # NOTE: `self.deduction` and `self.credit` include the person's
+        # own deductions and credits, so don't add those in again here.
+        deduction = self.deduction(person, year) + deduction
+        credit = self.credit(person, year) + credit
         return self.tax_money(taxable_income, year, deduction, credit)
 
     def tax_people(self, people, year, deduction=None, credit=None):
-- 
2.43.0


From 0e18918d6f1a648f470de46be06cb03bb81464b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 09/79] fix: determine Canadian tax credits for the year being
 taxed

---
 forecaster/canada/tax.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index b8d41e7..56d350f 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -73,9 +73,12 @@ class TaxCanadaJurisdiction(Tax):
         Returns:
             Money: The amount of the credit claimable by person in year.
         """
+        # (Look up `year` explicitly; it might not be the current year)
         pension_income = abs(sum(
-            account.outflows() for account in person.accounts
-            if isinstance(account, RRSP)))
+            value for account in person.accounts
+            if isinstance(account, RRSP)
+            for value in account.transactions_history.get(year, {}).values()
+            if value < 0))
             # NOTE: Other qualified pension income sources can be
             # added here
         # Each jurisdiction has a maximum claimable amount for the
@@ -123,14 +126,16 @@ class TaxCanadaJurisdiction(Tax):
         # This would help to avoid calling self.deductions many times.
         spouse = person.spouse
         spouse_net_income = (
-            spouse.taxable_income - self.deduction(spouse, year))
+            spouse.taxable_income_history[year]
+            - self.deduction(spouse, year))
 
         # Figure out whether to assign the credit to this person or
         # their spouse based on who has more income:
 
         # If this is the lower-earner, use their spouse instead:
         person_net_income = (
-            person.taxable_income - self.deduction(person, year))
+            person.taxable_income_history[year]
+            - self.deduction(person, year))
         if person_net_income < spouse_net_income:
             return 0 # Money value
         # If their incomes are the same, use memory location to
-- 
2.43.0


From 401577061d4812eae81915b1f536cf14b3d82a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 10/79] fix: limit the spousal credit to the maximum claimable
 amount

---
 forecaster/canada/tax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 56d350f..d167e5c 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -148,7 +148,7 @@ class TaxCanadaJurisdiction(Tax):
         # by the spouse's (net) income, but in any event it's not
         # negative.
         credit = max(
-            max_spousal_amount - spouse_net_income,
+            max_spousal_amount - max(spouse_net_income, 0),
             0) # Money value
 
         return credit
-- 
2.43.0


From cfc4ba5b765f3f27973b6a1f317732ea50a1d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 11/79] fix: don't mutate deductions and credits passed to
 TaxCanada

---
 forecaster/canada/tax.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index d167e5c..44bca39 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -229,11 +229,12 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         # by the superclass), or they can pass in `federal_*` and/or
         # `provincial_*` scalars which we'll wrap up appropriately.
         if "deductions" in kwargs:
-            deductions = kwargs["deductions"]
+            # (Copy these args to avoid mutating the caller's objects)
+            deductions = dict(kwargs["deductions"] or {})
         else:
             deductions = {}
         if "credits_" in kwargs:
-            credits_ = kwargs["credits_"]
+            credits_ = dict(kwargs["credits_"] or {})
         else:
             credits_ = {}
 
-- 
2.43.0


From 3167ba51c731c887bf7405a057c3c11b3393adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 12/79] fix: pass high_precision through to each Canadian
 jurisdiction

---
 forecaster/canada/tax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 44bca39..8837413 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -29,6 +29,7 @@ class TaxCanadaJurisdiction(Tax):
             inflation_adjust=inflation_adjustments,
             refund_timing=self.constants.TAX_REFUND_TIMING,
             payment_timing=self.constants.TAX_PAYMENT_TIMING,
+            high_precision=high_precision,
             **kwargs)
 
         self.jurisdiction = jurisdiction
-- 
2.43.0


From be37e0563ee51492446a3700c1f40ac65218f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 13/79] fix: share linked limits without netting or balancing
 linked accounts' flows

---
 forecaster/accounts/linked_limit.py | 191 +++++++++++++++++-----------
 1 file changed, 118 insertions(+), 73 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index e5b9b0a..1843d95 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -1,9 +1,7 @@
 """ A module providing the LinkedLimitAccount class. """
 
-from copy import copy
 from forecaster.accounts.base import Account
 from forecaster.accounts.link import AccountLink
-from forecaster.utility import add_transactions
 
 class LinkedLimitAccount(Account):
     """ An account with inflow/outflow limits linked to other accounts.
@@ -195,13 +193,8 @@ class LinkedLimitAccount(Account):
             link.data = limit
         return link
 
-    def _merge_transactions(self, transactions, group_transactions, link):
-        """ Merges `group_transactions` and `transactions`.
-
-        Only linked accounts have their transactions in
-        `group_transactions` added to `transactions`. Any keys in
-        `group_transactions` which are not linked (per `link`) are
-        ignored.
+    def _own_transactions(self, transactions, group_transactions):
+        """ The additional transactions to apply to this account.
 
         If `transactions` is provided, any transactions for this account
         in `group_transactions` are ignored.
@@ -213,52 +206,85 @@ class LinkedLimitAccount(Account):
             group_transactions
                 (Union[dict[Account, dict[Number, Money]], NoneType]):
                 A mapping of `Account` keys to `transactions`-like
-                values. Keys not linked (according to `link`) are
-                ignored.
+                values. May be `None`.
+
+        Returns:
+            Union[dict[Number, Money], NoneType]: `transactions`, if
+            provided, or else the transactions mapped to this account
+            by `group_transactions` (if any).
+        """
+        if transactions is None and group_transactions is not None:
+            return group_transactions.get(self)
+        return transactions
+
+    def _group_flows(self, link, flow, group_transactions):
+        """ The total flows of the other accounts sharing `link`.
+
+        The accounts' flows are totalled separately (rather than by
+        merging their transactions) so that an inflow to one account
+        doesn't cancel out an outflow from another, and so that other
+        accounts' transactions don't affect this account's balance.
+
+        Args:
             link (AccountLink): An object defining a collection of
                 linked accounts.
+            flow (str): The name of the method which totals the relevant
+                flows of an account, i.e. `'inflows'` or `'outflows'`.
+            group_transactions
+                (Union[dict[Account, dict[Number, Money]], NoneType]):
+                A mapping of `Account` keys to `transactions`-like
+                values. Keys not linked (according to `link`) are
+                ignored.
 
         Returns:
-            dict[Number, Money]: A time-series of transactions formed
-            by merging `transactions` (if provided) with the
-            transactions mapped by any accounts of `group_transactions`
-            (if provided) which are linked to this account.
+            Money: The sum of the flows already recorded against the
+            other linked accounts and the flows in `group_transactions`
+            for those accounts.
         """
-        # For convenience, use an empty iterable rather than `None`:
         if group_transactions is None:
-            group_transactions = set()
-
-        # We want to return `transactions`, but we don't want to mutate
-        # any of the inputs, so copy it first:
-        if transactions is not None:
-            transactions = copy(transactions)
-        elif self in group_transactions:
-            # If `transactions` isn't given, but this account is
-            # represented in `group_transactions`, use that:
-            transactions = copy(group_transactions[self])
-        else:
-            # Otherwise, just start with a empty dict to fill later:
-            transactions = {}
-
-        # If this account isn't linked (for this type of inflow/outflow,
-        # anyways), we're done:
+            group_transactions = {}
+        return sum(
+            (
+                getattr(account, flow)(group_transactions.get(account))
+                for account in link.group if account is not self),
+            self.precision_convert(0)) # Money value
+
+    def _max_total(
+            self, link, limit, transaction_limit,
+            transactions=None, group_transactions=None):
+        """ Reduces a shared inflow limit by other accounts' inflows. """
+        # If this account isn't linked (for this type of inflow), then
+        # there's no shared limit to apply:
         if link is None:
-            return transactions
-
-        # Otherwise, merge the transactions for each other linked
-        # account in the group (note that this account is handled above)
-        group = link.group - {self}
-        for account in group:
-            # Add the transactions already recorded against the account:
-            add_transactions(transactions, account.transactions)
-            # And add any additional transactions, if present in
-            # `group_transactions`:
-            if account in group_transactions:
-                add_transactions(transactions, group_transactions[account])
-        return transactions
+            return transaction_limit
+        room = (
+            limit - self.inflows(transactions)
+            - self._group_flows(
+                link, 'inflows', group_transactions))
+        if transaction_limit is not None:
+            room = min(room, transaction_limit)
+        return room
+
+    def _min_total(
+            self, link, limit, transaction_limit,
+            transactions=None, group_transactions=None):
+        """ Reduces a shared outflow limit by other accounts' outflows. """
+        # If this account isn't linked (for this type of outflow), then
+        # there's no shared limit to apply:
+        if link is None:
+            return transaction_limit
+        room = (
+            limit - self.outflows(transactions)
+            - self._group_flows(
+                link, 'outflows', group_transactions))
+        # Recall that outflows are negative, so we use max, not min
+        if transaction_limit is not None:
+            room = max(room, transaction_limit)
+        return room
 
     def max_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -272,8 +298,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a max
-                inflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                inflow limit linked to this one will be counted
+                against the limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -282,14 +308,19 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_inflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # Account for the other accounts sharing this account's limit:
+        transaction_limit = self._max_total(
+            self.max_inflow_link, self.max_inflow_limit, transaction_limit,
+            transactions=transactions, group_transactions=group_transactions)
         return super().max_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions, **kwargs)
 
     def max_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -303,8 +334,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a max
-                outflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                outflow limit linked to this one will be counted
+                against the limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -313,14 +344,19 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_outflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # Account for the other accounts sharing this account's limit:
+        transaction_limit = self._min_total(
+            self.max_outflow_link, self.max_outflow_limit, transaction_limit,
+            transactions=transactions, group_transactions=group_transactions)
         return super().max_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions, **kwargs)
 
     def min_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -334,8 +370,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a min
-                inflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                inflow limit linked to this one will be counted
+                against the limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -344,14 +380,19 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_inflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # Account for the other accounts sharing this account's limit:
+        transaction_limit = self._max_total(
+            self.min_inflow_link, self.min_inflow_limit, transaction_limit,
+            transactions=transactions, group_transactions=group_transactions)
         return super().min_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions, **kwargs)
 
     def min_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, balance_limit=None,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -365,8 +406,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a min
-                outflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                outflow limit linked to this one will be counted
+                against the limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -375,8 +416,12 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_outflow_link)
+        transactions = self._own_transactions(
+            transactions, group_transactions)
+        # Account for the other accounts sharing this account's limit:
+        transaction_limit = self._min_total(
+            self.min_outflow_link, self.min_outflow_limit, transaction_limit,
+            transactions=transactions, group_transactions=group_transactions)
         return super().min_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit=transaction_limit,
+            balance_limit=balance_limit, transactions=transactions, **kwargs)
-- 
2.43.0


From 436b4f4d7c9a7bbeca9bf4334480ca7e315c0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 14/79] fix: begin accruing TFSA room in the year the
 contributor becomes eligible

---
 forecaster/canada/accounts/tfsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 4fb2cbb..f3234c2 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -102,8 +102,8 @@ class TFSA(RegisteredAccount):
 
         This excludes any rollovers - it's just the statutory accrual.
         """
-        # No accrual if the owner is too young to qualify:
-        if self.owner.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        # No accrual if the contributor is too young to qualify:
+        if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0


From 8062be4acecc29961e7c4b88f15f69aab73a8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 15/79] fix: infer initial TFSA room when inputs only cover
 later years

---
 forecaster/canada/accounts/tfsa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index f3234c2..ff2d943 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -73,12 +73,13 @@ class TFSA(RegisteredAccount):
         # before this initial_year (e.g. due to `input`), in which
         # case we should extrapolate from that year onwards:
         # (See above note re: `_contribution_room_history`)
-        if self._contribution_room_history:
+        past_years = [
+            year for year in self._contribution_room_history
+            if year < self.initial_year]
+        if past_years:
             # Get the last year for which there is data and the
             # contribution room recorded for that year:
-            last_year = max(
-                year for year in self._contribution_room_history
-                if year < self.initial_year)
+            last_year = max(past_years)
             contribution_room = self._contribution_room_history[last_year]
             # We'll add up accruals starting the year after that:
             start_year = last_year + 1
-- 
2.43.0


From e5957c0214f9f5a2676b0494d48316107a94ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 16/79] fix: count contributions to every account sharing
 contribution room

---
 forecaster/canada/accounts/rrsp.py | 6 ++++--
 forecaster/canada/accounts/tfsa.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index b1353a9..77a4904 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -213,8 +213,10 @@ class RRSP(RegisteredAccount):
                 accrual_max,
                 self.inflation_adjust,
                 year + 1)
-            # Don't forget to add in any rollovers:
-            rollover = self.contribution_room - self.inflows()
+            # Don't forget to add in any rollovers (less contributions
+            # to any of the accounts which share this room):
+            rollover = self.contribution_room - sum(
+                account.inflows() for account in self.max_inflow_link.group)
             return min(
                 accrual,
                 max_accrual # Money value
diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index ff2d943..8674eb4 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -126,7 +126,10 @@ class TFSA(RegisteredAccount):
         contribution_room = self._contribution_room_accrual(self.this_year + 1)
         # On top of this year's accrual, roll over unused contribution
         # room, plus any withdrawals (less contributions) from last year
-        rollover = self.contribution_room - (self.outflows() + self.inflows())
+        # (including those of any accounts which share this room)
+        rollover = self.contribution_room - sum(
+            account.outflows() + account.inflows()
+            for account in self.max_inflow_link.group)
         return contribution_room + rollover
 
     @recorded_property
-- 
2.43.0


From 265181b2a851c30740fffd2dd4832ddee1900ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 17/79] fix: limit contributions by contribution room received
 as input

---
 forecaster/canada/accounts/registered_account.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 99e6618..688339d 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -159,8 +159,10 @@ class RegisteredAccount(LinkedLimitAccount):
 
         # Now assign the contribution room we determined earlier to
         # the linked data store:
+        # (Do this via `max_inflow_limit`; `contribution_room` is not
+        # settable where its value for the year was input by the user.)
         if first_account:
-            self.contribution_room = contribution_room
+            self.max_inflow_limit = contribution_room
 
     def next_contribution_room(self):
         """ Returns the contribution room for next year.
-- 
2.43.0


From 07cdd6e28e4a450a5e334518e6283fa0959f0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 18/79] fix: withhold tax only on withdrawals above the RRIF
 minimum

---
 forecaster/canada/accounts/rrsp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index 77a4904..e48de6e 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -146,7 +146,10 @@ class RRSP(RegisteredAccount):
         else:
             # Only withdrawals in excess of the minimum RRIF withdrawal
             # are hit by the withholding tax.
-            taxable_income = self.taxable_income - self.min_outflow_limit
+            # (Recall that `min_outflow_limit` is negative!)
+            taxable_income = max(
+                self.taxable_income + self.min_outflow_limit,
+                self.precision_convert(0)) # Money value
 
         year = nearest_year(
             self.constants.RRSP_WITHHOLDING_TAX_RATE,
-- 
2.43.0


From c303e54801ee1b1607ad136e212d136f310b9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 19/79] fix: accept the same timings when looking up
 transactions as when adding them

---
 forecaster/accounts/base.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index e2f63a0..2bfc7e7 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -405,7 +405,8 @@ class Account(TaxSource):
         # (We assign a new defaultdict because the old dict is
         # stored by the `transactions` recorded_property; invoking
         # `clear` will affect past-year records.)
-        self._transactions = defaultdict(lambda: 0) # Money value
+        self._transactions = defaultdict(
+            lambda: self.precision_convert(0)) # Money value
 
     @property
     def max_outflow_limit(self):
@@ -855,15 +856,19 @@ class Account(TaxSource):
         return when in self._transactions
 
     def __getitem__(self, key):
-        return self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        # Use `get` so that a lookup doesn't add a transaction:
+        return self._transactions.get(
+            when, self.precision_convert(0)) # Money value
 
     def __setitem__(self, key, value):
-        if key in self._transactions:
-            del self._transactions[key]
+        if key in self:
+            del self[key]
         self.add_transaction(value=value, when=key)
 
     def __delitem__(self, key):
-        del self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        del self._transactions[when]
 
     def keys(self):
         """ The timings of the account's transactions. """
@@ -879,7 +884,8 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        return self._transactions.get(key, default)
+        when = when_conv(key, high_precision=self.high_precision)
+        return self._transactions.get(when, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From 8203e92feab1f40f90201fd9b885a3a26a6a1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 20/79] fix: respect input capital gains and acb and refresh
 them on removals

---
 forecaster/canada/accounts/taxable_account.py | 53 ++++++++++++++++---
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 9bd3d78..533cdb3 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -80,6 +80,17 @@ class TaxableAccount(Account):
         activity. Therefore, changing any transactions will affect
         capital_gain.
         """
+        capital_gain, acb = self._realize_gains()
+        # We've generated the ACB for the next year, so store it now.
+        self._set_next_acb(acb)
+        return capital_gain
+
+    def _realize_gains(self):
+        """ Finds this year's capital gain and the year-end acb.
+
+        Returns:
+            tuple[Money, Money]: A `(capital_gain, acb)` pair.
+        """
         acb = self.acb
         capital_gain = self.precision_convert(0)
         transactions = self.transactions
@@ -105,19 +116,45 @@ class TaxableAccount(Account):
                     self.precision_convert(1) - (acb / balance))
                 acb *= self.precision_convert(1) - (-value / balance)
 
-        # We've generated the ACB for the next year, so store it now.
-        self._acb_history[self.this_year + 1] = acb
-        return capital_gain
+        return (capital_gain, acb)
+
+    def _set_next_acb(self, acb):
+        """ Stores `acb` for next year (unless input by the user). """
+        # pylint: disable=no-member
+        # Pylint gets confused by attributes added by metaclass.
+        # All `_*_history` members are dicts added automatically:
+        next_year = self.this_year + 1
+        if next_year not in self.inputs.get('acb', {}):
+            self._acb_history[next_year] = acb
+
+    def next_year(self):
+        """ Determines the acb for next year before advancing. """
+        # The acb is ordinarily determined along with the capital gain,
+        # but that's not so if the capital gain was input by the user:
+        if self.this_year + 1 not in self._acb_history:
+            self._set_next_acb(self._realize_gains()[1])
+        super().next_year()
+
+    def _invalidate_gains(self):
+        """ Clears values which depend on this year's transactions. """
+        # Input values are retained; `del` does that automatically.
+        del self.capital_gain
+        if self.this_year + 1 not in self.inputs.get('acb', {}):
+            self._acb_history.pop(self.this_year + 1, None)
 
     def add_transaction(self, value, when='end'):
         super().add_transaction(value, when)
         # Invalidate the cache for acb and capital gains, since
         # transactions will affect it.
-        # pylint: disable=no-member
-        # Pylint gets confused by attributes added via metaclass.
-        # All `_*_history` members are dicts added automatically:
-        self._capital_gain_history.pop(self.this_year, None)
-        self._acb_history.pop(self.this_year + 1, None)
+        self._invalidate_gains()
+
+    def __delitem__(self, key):
+        super().__delitem__(key)
+        self._invalidate_gains()
+
+    def clear(self):
+        super().clear()
+        self._invalidate_gains()
 
     @recorded_property
     def taxable_income(self):
-- 
2.43.0


From 5a48780fad7fdd7d0c1b0b4f28203272f90b1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 21/79] fix: don't share cached high-precision values between
 objects

---
 forecaster/utility/precision.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/forecaster/utility/precision.py b/forecaster/utility/precision.py
index a2e85cd..b0407ab 100644
--- a/forecaster/utility/precision.py
+++ b/forecaster/utility/precision.py
@@ -105,11 +105,12 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
     for examples and further information.
     """
 
-    def __init__(self):
-        super().__init__()
-        # Cached values (for efficient calls to __get__):
-        self._high_precision_cache = None
-        self._high_precision_value_cache = None
+    def __set_name__(self, owner, name):
+        super().__set_name__(owner, name)
+        # Values are cached for each object (not by this descriptor,
+        # which is shared by all instances of the class), so determine
+        # the name of the attribute which stores the cache:
+        self.cache_name = self.private_name + '_high_precision_cache'
 
     def __get__(self, obj, objtype=None, *, high_precision=None):
         # When called by metaclass on class init, `obj` is None:
@@ -127,13 +128,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
         # Check to see if the previous return value is cached and can
         # be used for these inputs:
+        cache = getattr(obj, self.cache_name, None)
         if (
                 # Confirm we have a cached value (this fails if a new
                 # value has been set since the last call to __get__):
-                self._high_precision_value_cache is not None and
+                cache is not None and
                 # Confirm that the conversion method is the same:
-                self._high_precision_cache == high_precision):
-            return self._high_precision_value_cache
+                cache[0] == high_precision):
+            return cache[1]
 
         # If we can't use the cache, calculate a fresh value:
         value = super().__get__(
@@ -143,15 +145,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
             high_precision=high_precision)
 
         # Update the cache to make the next call more efficient:
-        self._high_precision_value_cache = value
-        self._high_precision_cache = high_precision
+        setattr(obj, self.cache_name, (high_precision, value))
 
         return value
 
     def __set__(self, obj, value):
         super().__set__(obj, value)
         # Invalidate the cache
-        self._high_precision_value_cache = None
+        setattr(obj, self.cache_name, None)
 
 class HighPrecisionOptional(object):
     """ Supports both native and high-precision numerical types.
-- 
2.43.0


From 4b9129338770d8e9fdd3187261ee1ea21c9ea165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 22/79] fix: convert large and high-precision numeric strings
 without loss

---
 forecaster/value_reader.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1096c03..f364a02 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -2,6 +2,7 @@
 
 import os
 import json
+import math
 from forecaster.utility.precision import HighPrecisionOptional
 
 INFINITY = float('inf')
@@ -336,17 +337,22 @@ class ValueReader(HighPrecisionOptional):
             return vals
 
         # Now we know `vals` is a numeric-convertible str. Convert it:
-        # Prefer int representation if possible:
-        if float_val % 1 == 0:
-            # `float_val % 1` is `NaN` for infinite or NaN values,
-            # and is a non-zero number for any floating-point value.
-            # Thus, if this test passes, we have an integer value.
-            return int(float_val)
         # Use high-precision numeric type if supported:
         if self.high_precision is not None:
-            return self.high_precision(vals)
+            value = self.high_precision(vals)
         # Otherwise, use float:
-        return float_val
+        else:
+            value = float_val
+        # Prefer int representation if possible:
+        # (Infinite and NaN values can't be represented as int)
+        if math.isfinite(float_val) and int(value) == value:
+            # Large integers lose precision when converted to float, so
+            # convert directly from str where `vals` is integer-like:
+            try:
+                return int(vals) #@IgnoreException
+            except ValueError:
+                return int(value)
+        return value
 
     def write(self, filename, vals=None):
         """ Writes values to a UTF-8 encoded JSON file.
-- 
2.43.0


From 8654b13dd082c31fb313c2a59efe0396b34a3ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 23/79] fix: allow deletion of managed ValueReader attributes

---
 forecaster/value_reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index f364a02..bdfa1ba 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -59,8 +59,6 @@ class ValueReaderAttribute(object):
     def __delete__(self, obj):
         # Remove the value from the `values` dict:
         del obj.values[self.name]
-        # Also remove this descriptor:
-        del obj.__dict__[self.name]
 
 class HighPrecisionJSONEncoder(json.JSONEncoder):
     """ Extends JSONEncoder to support high-precision numeric types.
-- 
2.43.0


From f1af7f92f7d3703558925df0206553a1f038665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 24/79] fix: retain past years' transactions and don't undo
 transactions twice

---
 forecaster/forecast/subforecast.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb4e904..1549f6c 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -142,17 +142,22 @@ class SubForecast(Ledger):
         # We store transactions to/from each account so that we can
         # unwind or inspect transactions caused by this subforecast
         # later. So we store it as `{account: {when: value}}`.
-        # Since `account` can be a dict (which is non-hashable),
-        # we use a custom subclass of defaultdict that allows
-        # non-hashable keys.
-        self._transactions = TransactionDict(
-            lambda: defaultdict(lambda: 0)) # Money value
+        self._transactions = self._init_transactions()
         # If the subforecast is called more than once, we
         # may want to do some unwinding. Use this to track
         # whether this subforecast has been called before:
         self._call_invoked = False
         self.total_available = 0 # Money value
 
+    @staticmethod
+    def _init_transactions():
+        """ An empty record of transactions. """
+        # Since `account` can be a dict (which is non-hashable),
+        # we use a custom subclass of defaultdict that allows
+        # non-hashable keys.
+        return TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
+
     @recorded_property
     def transactions(self):
         """ `TransactionDict` tracking transactions to/from accounts. """
@@ -170,7 +175,9 @@ class SubForecast(Ledger):
         # are recorded with their current state:
         super().next_year()
         # There are no existing transactions at the start of the year:
-        self.transactions.clear()
+        # (Assign a new object, since the old one has been recorded in
+        # `transactions_history`)
+        self._transactions = self._init_transactions()
         self._call_invoked = False
 
     def __call__(self, available):
@@ -207,6 +214,8 @@ class SubForecast(Ledger):
             if account is not None:
                 for when, value in self.transactions[account].items():
                     account[when] -= value
+        # Forget the transactions so that they aren't reversed again:
+        self._transactions = self._init_transactions()
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
-- 
2.43.0


From b6929c9b3eb85a77b07afbbd3f566ff083f37a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 25/79] fix: list the accounts of a TransactionDict without
 sorting them

---
 forecaster/forecast/subforecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 1549f6c..4d2d168 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -73,7 +73,8 @@ class TransactionDict(defaultdict):
         # NOTE: We can't use a frozenset; it requires hashable values.
 
         # Translation between key and id(key) is handled by __iter__
-        return sorted(self.__iter__())  # Returns a list
+        # (Accounts and dicts can't be sorted, so don't try!)
+        return list(self.__iter__())
 
 class SubForecast(Ledger):
     """ Generic class for implementing part of a financial forecast.
-- 
2.43.0


From 00037fbdf01f15b6953d72c7aae7547c95499b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 26/79] fix: total contributions to debts as debt repayments

---
 forecaster/forecast/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 9c24e79..101e0db 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -75,7 +75,7 @@ class SavingForecast(SubForecast):
         # class is all about.
         return sum(
             sum(self.account_transactions[account].values())
-            for account in self.retirement_accounts
+            for account in self.debt_accounts
             if account in self.account_transactions)
 
     @recorded_property_cached
-- 
2.43.0


From 59f23041d9ba6581c0c903692930700d40e54ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 27/79] fix: pay living expenses in years without income

---
 forecaster/forecast/living_expenses.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index e7d3a48..d3b2264 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -49,8 +49,15 @@ class LivingExpensesForecast(SubForecast):
         # living expenses every time each of them gets paid
         # proportionately to their share of net income.
         total_income = sum(person.net_income for person in self.people)
-        income_weights = {
-            person: person.net_income / total_income for person in self.people}
+        if total_income != 0:
+            income_weights = {
+                person: person.net_income / total_income
+                for person in self.people}
+        else:
+            # With no income (e.g. where everyone's retired) there are
+            # no shares of income, so share living expenses equally:
+            share = self.precision_convert(1) / len(self.people)
+            income_weights = {person: share for person in self.people}
         for person in self.people:
             self.add_transaction(
                 self.living_expenses * income_weights[person],
-- 
2.43.0


From de31d74a6863f4416583d89d99e8edb674048fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 28/79] fix: total tax withheld on withdrawals separately for
 each year

---
 forecaster/forecast/withdrawal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index fbdc27e..82621a4 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -123,6 +123,12 @@ class WithdrawalForecast(SubForecast):
             # Keep track of total tax withheld:
             self.tax_withheld += new_tax_withheld
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been withheld yet in the new year:
+        self.tax_withheld = self.precision_convert(0) # Money value
+
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-- 
2.43.0


From 891416591a173ab54ad8d88d82c06d0622745997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 29/79] fix: balance allocations which are entirely equities

---
 forecaster/strategy/allocation.py | 41 +++++++++++++------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index a4b2500..da7a1aa 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -232,32 +232,25 @@ class AllocationStrategy(Strategy):
                 other values are rebalanced accordingly so that
                 the sum of all allocation attributes is 1.
         """
+        # Find the nearest equity weighting that's in the range:
         if allocation.stocks > self.max_equity:
-            # Move the excess weighting of equity into bonds and other
-            # proportionately to their current values:
-            bonds = allocation.bonds + (
-                (allocation.stocks - self.max_equity)
-                * allocation.bonds / (allocation.bonds + allocation.other)
-            )
-            other = allocation.other + (
-                (allocation.stocks - self.max_equity)
-                * allocation.other / (allocation.bonds + allocation.other)
-            )
-            allocation = AssetAllocation(self.max_equity, bonds, other)
+            stocks = self.max_equity
         elif allocation.stocks < self.min_equity:
-            # Move weighting to equity from bonds and other
-            # proportionately to their current values:
-            bonds = allocation.bonds - (
-                (self.min_equity - allocation.stocks)
-                * allocation.bonds / (allocation.bonds + allocation.other)
-            )
-            other = allocation.other - (
-                (self.max_equity - allocation.stocks)
-                * allocation.other / (allocation.bonds + allocation.other)
-            )
-            allocation = AssetAllocation(self.min_equity, bonds, other)
-
-        return allocation
+            stocks = self.min_equity
+        else:
+            return allocation
+
+        # Move the excess (or shortfall) in the weighting of equity
+        # into bonds and other proportionately to their current values:
+        fixed_income = allocation.bonds + allocation.other
+        if fixed_income == 0:
+            # There's no proportion to maintain, so prefer bonds:
+            return AssetAllocation(
+                stocks, 1 - stocks - allocation.other, allocation.other)
+        excess = allocation.stocks - stocks
+        bonds = allocation.bonds + excess * allocation.bonds / fixed_income
+        other = allocation.other + excess * allocation.other / fixed_income
+        return AssetAllocation(stocks, bonds, other)
 
     def __call__(self, age, *args, retirement_age=None, **kwargs):
         """ Returns a dict of {account, Money} pairs. """
-- 
2.43.0


From e839c6d8bbb5e20ed72f59dee3186e00f76a47d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 30/79] fix: build allocation strategies from settings

---
 forecaster/forecaster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 41a3f29..21a34d9 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -491,5 +491,6 @@ class Forecaster(HighPrecisionOptional):
         other parameters.
         """
         return self.build_param(
-            Parameter.ALLOCATION_STRATEGY, AllocationStrategy, *args,
+            Parameter.ALLOCATION_STRATEGY, *args,
+            param_type=AllocationStrategy,
             _special_builder=False, **kwargs)
-- 
2.43.0


From b34009d4f0199ad294474a99f08d3250d26f4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 31/79] fix: combine the brackets and deductions of multiple
 jurisdictions

---
 forecaster/tax.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 3852c90..72f339b 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -670,7 +670,8 @@ class TaxMulti(object):
                 for tax in self.jurisdictions)
         # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
-        brackets = (tax.tax_brackets(year=year) for tax in self.jurisdictions)
+        # (This is iterated over repeatedly, so don't use a generator)
+        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
         bracket_keys = set.union(*(set(bracket) for bracket in brackets))
         combined_brackets = {}
@@ -696,7 +697,7 @@ class TaxMulti(object):
 
     def deduction(self, person, year):
         """ The deductions the person is eligible for. """
-        return self.jurisdictions[0].deductions(
+        return self.jurisdictions[0].deduction(
             person=person, year=year)
 
     def credit(self, person, year, deduction=None):
-- 
2.43.0


From e0d4de19451ad639b52f0910de6aaf17f6df17eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 32/79] fix: tax any iterable of people

---
 forecaster/tax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 72f339b..782f92e 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -431,6 +431,9 @@ class Tax(HighPrecisionOptional):
         if credit is None:
             credit = {}
 
+        # Any iterable is acceptable, but we use set operations below:
+        people = set(people)
+
         # Base case: If {} is passed, return $0.
         if not people:
             return self.precision_convert(0)
-- 
2.43.0


From cf098dccf3374b92a4886ea4650f2178a1215b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 33/79] fix: tax a person in multiple jurisdictions without
 explicit deductions

---
 forecaster/tax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 782f92e..c23f25b 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -732,8 +732,8 @@ class TaxMulti(object):
             self, taxable_income, year, deductions=None, credits_=None):
         """ Returns taxes owing on a given amount of taxable income. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_money(
@@ -745,8 +745,8 @@ class TaxMulti(object):
             self, person, year, deductions=None, credits_=None):
         """ Returns tax treatment for an individual person. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_person(
-- 
2.43.0


From 0741c36a54b855a1fd038c37c25558f20692e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 34/79] fix: combine brackets which differ between
 jurisdictions

---
 forecaster/tax.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index c23f25b..592df9f 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -666,33 +666,42 @@ class TaxMulti(object):
 
     def tax_brackets(self, year, bracket=None):
         """ Combined tax brackets for year. """
-        # If `bracket` is provided, we return a scalar:
-        if bracket is not None:
-            return sum(
-                tax.tax_brackets(year=year, bracket=bracket)
-                for tax in self.jurisdictions)
-        # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
         # (This is iterated over repeatedly, so don't use a generator)
         brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
-        bracket_keys = set.union(*(set(bracket) for bracket in brackets))
+        bracket_keys = set.union(
+            *(set(inner_brackets) for inner_brackets in brackets))
         combined_brackets = {}
         # Sum up the rate for each bracket (since brackets might not
         # align, find the highest-threshold bracket for each
         # jurisdiction without exceeding `key`)
         for key in sorted(bracket_keys):
             combined_brackets[key] = sum(
-                bracket[
-                    max(inner_key for inner_key in bracket if inner_key <= key)]
-                for bracket in brackets)
+                inner_brackets[max(
+                    inner_key for inner_key in inner_brackets
+                    if inner_key <= key)]
+                for inner_brackets in brackets)
+        # If `bracket` is provided, we return a scalar:
+        if bracket is not None:
+            return combined_brackets[bracket]
+        # Otherwise we return a dict.
         return combined_brackets
 
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
-        return sum(
-            tax.accum(year=year, bracket=bracket)
-            for tax in self.jurisdictions)
+        # Brackets might not align between jurisdictions, so accumulate
+        # tax payable over the combined brackets:
+        brackets = self.tax_brackets(year=year)
+        prev = min(brackets)
+        accum = {prev: 0 * brackets[prev]}
+        for key in sorted(brackets):
+            if key != prev:
+                accum[key] = accum[prev] + (key - prev) * brackets[prev]
+                prev = key
+        if bracket is not None:
+            return accum[bracket]
+        return accum
 
     def personal_deduction(self, year):
         """ Personal deduction for `year`. """
-- 
2.43.0


From 6ce80b3a01be6ab3fe80b74e899aa15842de8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 35/79] fix: update a person's deductions and credits with
 their accounts

---
 forecaster/person.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index dc66aa6..1f70e71 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -398,13 +398,15 @@ class Person(TaxSource):
 
     # NOTE: Test overloading of recorded property by subclass
 
-    @recorded_property_cached
+    # These depend on accounts' transactions, which can change over the
+    # course of the year, so don't cache them:
+    @recorded_property
     def tax_deduction(self):
         """ The `Person`'s tax deductions for the year. """
         return sum(
             (account.tax_deduction for account in self.accounts))
 
-    @recorded_property_cached
+    @recorded_property
     def tax_credit(self):
         """ The `Person`'s tax credits for the year. """
         return sum(
-- 
2.43.0


From afdbfce965ea99c02fd38b5896d981b499d96e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 36/79] fix: express inflation adjustments relative to the base
 year

---
 forecaster/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/scenario.py b/forecaster/scenario.py
index 1b77f8c..5549955 100644
--- a/forecaster/scenario.py
+++ b/forecaster/scenario.py
@@ -202,7 +202,7 @@ class Scenario(object):
             (or, for years prior to `base_year`, it is the present value
             of $1 in base_year)
         """
-        return {year: self.accumulation_function(year, base_year)
+        return {year: self.accumulation_function(base_year, year)
                 for year in self}
 
     @property
-- 
2.43.0


From 668fc5297f42ac02cd5e01c96ee2dfd7ce433d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 37/79] fix: raise ValueError when there are no values to
 extend

---
 forecaster/utility/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/utility/inflation.py b/forecaster/utility/inflation.py
index fe56139..c3f2b1d 100644
--- a/forecaster/utility/inflation.py
+++ b/forecaster/utility/inflation.py
@@ -91,7 +91,7 @@ def extend_inflation_adjusted(vals, inflation_adjust, target_year):
     # If one of the above searches worked, return an inflation-adjusted
     # value (or dict/list of values, depending on what the values of
     # `vals` are)
-    if base_year != target_year:
+    if base_year is not None:
         val = vals[base_year]
         if isinstance(val, dict):
             return {
-- 
2.43.0


From 5204801d7f16e35f0e07f20d828e01db24b91fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 38/79] fix: RRIF minimum withdrawals depend on the annuitant's
 age

The conversion year is determined by the owner's (annuitant's) age, but
the minimum withdrawal was determined by the contributor's, so a
spousal RRSP used the wrong person's age.
---
 forecaster/canada/accounts/rrsp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index e48de6e..9222c19 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -245,9 +245,10 @@ class RRSP(RegisteredAccount):
             rrif_withdrawal_min = self.constants.RRSP_RRIF_WITHDRAWAL_MIN
 
         # Minimum withdrawals are required the year after converting to
-        # an RRIF. How it is calculated depends on the person's age.
+        # an RRIF. How it is calculated depends on the age of the
+        # annuitant, i.e. the owner (like the conversion year).
         if self.rrif_conversion_year < self.this_year:
-            age = self.contributor.age(self.this_year)
+            age = self.owner.age(self.this_year)
             if age in rrif_withdrawal_min:
                 return (
                     self.precision_convert(rrif_withdrawal_min[age])
-- 
2.43.0


From 28ec128a52d8165f64a5a193470b41fed2642620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 39/79] fix: use contribution room input via any linked account

Contribution room is shared, but room input for a year was only used if
the account it was input to happened to be the first to be advanced.
---
 forecaster/canada/accounts/registered_account.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 688339d..05fef68 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -136,9 +136,17 @@ class RegisteredAccount(LinkedLimitAccount):
             # (e.g. via an `input` dict), use that:
             # pylint: disable=no-member
             # Pylint gets confused by attributes added by metaclass
+            # (It may have been input via any of the linked accounts,
+            # since they share contribution room.)
             next_year = self.this_year + 1
-            if next_year in self.contribution_room_history:
-                contribution_room = self.contribution_room_history[next_year]
+            history = next(
+                (
+                    account.contribution_room_history
+                    for account in (self, *self.max_inflow_link.group)
+                    if next_year in account.contribution_room_history),
+                None)
+            if history is not None:
+                contribution_room = history[next_year]
             else:
                 # Otherwise, generate it using the magic method:
                 contribution_room = self.next_contribution_room()
-- 
2.43.0


From f58b7db03f36b3053afd2a019ce3c4c7de56587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 40/79] fix: no TFSA contribution room accrues before 2009

Room accrued at the (inflation-adjusted) base amount in years before the
first year for which there are accruals, although the initial room was
determined on the basis that there was none.
---
 forecaster/canada/accounts/tfsa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 8674eb4..be75cb1 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -107,6 +107,10 @@ class TFSA(RegisteredAccount):
         if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
+        # TFSAs didn't exist before the first year of accruals:
+        if year < self._base_accrual_year:
+            return self.precision_convert(0) # Money value
+
         # If we already have an accrual rate set for this year, use that
         if year in self.constants.TFSA_ANNUAL_ACCRUAL:
             return self.constants.TFSA_ANNUAL_ACCRUAL[year] # Money value
-- 
2.43.0


From a88681748da782234a1dabfe2e1dc7736fa39841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 41/79] fix: accept any iterable of people in TaxMulti

A one-shot iterable (e.g. a generator) was used up by the first
jurisdiction, so no tax was owing in the others.
---
 forecaster/tax.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 592df9f..892967e 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -765,6 +765,8 @@ class TaxMulti(object):
 
     def tax_people(self, people, year, deductions=None, credits_=None):
         """ Total tax liability for a group of people. """
+        # Any iterable is acceptable, but we iterate repeatedly:
+        people = set(people)
         # Wrap args in defaultdicts to avoid key errors:
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
@@ -777,6 +779,8 @@ class TaxMulti(object):
 
     def tax_spouses(self, people, year, deductions=None, credits_=None):
         """ Tax treatment for a pair of spouses. """
+        # Any iterable is acceptable, but we iterate repeatedly:
+        people = set(people)
         # Wrap args in defaultdicts to avoid key errors:
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
@@ -790,6 +794,9 @@ class TaxMulti(object):
     def __call__(
             self, income, year, deductions=None, credits_=None):
         """ Determines taxes owing in multiple jurisdictions. """
+        # Any iterable is acceptable, but we iterate repeatedly:
+        if isinstance(income, collections.abc.Iterable):
+            income = set(income)
         # Total tax is simply the sum of federal and prov. taxes.
         deductions = make_defaultdict(deductions)
         credits_ = make_defaultdict(credits_)
-- 
2.43.0


From e6137b7f9a2a864a8ebc9a3aeb937accce2cad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 42/79] fix: drawing on an empty account with later deposits
 doesn't crash

time_to_value divided by zero (or raised ValueError for overdrawn
accounts) instead of reporting that growth never reaches the value.
---
 forecaster/accounts/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 904a7b9..7d2f9fc 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -162,7 +162,14 @@ def time_to_value(rate, value_now, value_then, nper=1, *, high_precision=None):
     Returns:
         A Decimal object representing the time required to
         grow (or shrink) from `value_now` to `value_then`.
+        This is infinite if growth can never lead there (e.g. from a
+        zero value or to a value with the opposite sign).
     """
+    if value_now == 0 or value_then / value_now < 0:
+        infinity = float('inf')
+        if high_precision is not None:
+            infinity = high_precision(infinity)
+        return infinity
     return accumulation_function_inverse(
         accum=value_then/value_now, rate=rate, nper=nper,
         high_precision=high_precision)
-- 
2.43.0


From 873e24c51562f1c5f29c21802dfb961c32b9aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 43/79] fix: refresh a forecast component's cached values when
 it is called

Values read before the first call in a year (e.g. SavingForecast.total)
stayed cached afterwards.
---
 forecaster/forecast/subforecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 4d2d168..6b44768 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -190,6 +190,9 @@ class SubForecast(Ledger):
         # Keep track of the fact that this method has been called again:
         self._call_invoked = True
 
+        # Any values cached before this call don't reflect its effects:
+        self.clear_cache()
+
         # It's often useful to know (in scalar terms) how much money
         # is available for use by the Forecast in the year. Track
         # that here.
-- 
2.43.0


From 224adaf2befbea6da416000279cf12d07184e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 44/79] fix: redistribute unusable shares of weighted
 transactions by weight

Rounding of capacities by a unit and overflow going astray while
subsets of children are rebalanced left the split among a weighted
node's other children arbitrary (dependent on iteration order).
---
 forecaster/strategy/transaction/base.py  |  4 ++-
 forecaster/strategy/transaction/graph.py | 33 +++++++++++++++++-------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 46ae4e2..39c3db8 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1019,7 +1019,9 @@ class TransactionTraversal(HighPrecisionOptional):
                 outbound_nodes=self.outbound_nodes)
             self._balance_flows(node, children=children, **kwargs)
             # Undo the foregoing mutation of edges from `overflow_node`:
-            _unrestrict_overflow(self.graph, node, self.overflow_nodes)
+            _unrestrict_overflow(
+                self.graph, node, self.overflow_nodes,
+                outbound_nodes=self.outbound_nodes)
 
     def _add_node_ordered(
             self, node, children, *, capacity=None, **kwargs):
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 988c9e2..4731bee 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -406,12 +406,15 @@ def _restrict_overflow(
     # through `children` (via `overflow_node`) and not other nodes.
     for child in node.children:
         if child not in children:
-            if overflow_node in flows and child in flows[overflow_node]:
-                capacity = flows[overflow_node][child]
-            else:
-                capacity = 0
-            edge_data = {CAPACITY_KEY: capacity}
-            graph.add_edge(overflow_node, child, **edge_data)
+            # If flow already overflows to the child, let exactly that
+            # much through directly (so that it doesn't go elsewhere):
+            overflow = _flows_through(overflow_node, child, flows=flows)
+            if overflow > 0:
+                capacity = overflow + _flows_through(
+                    outbound_node, child, flows=flows)
+                graph.add_edge(
+                    outbound_node, child, **{CAPACITY_KEY: capacity})
+            graph.add_edge(overflow_node, child, **{CAPACITY_KEY: 0})
 
 def _unrestrict_overflow(
         graph, node, overflow_nodes, outbound_nodes=None):
@@ -445,6 +448,12 @@ def _unrestrict_overflow(
         edge_data = {CAPACITY_KEY: capacity}
         graph.add_edge(overflow_node, child, **edge_data)
 
+def _rounding_error(children):
+    """ A bound on the rounding error in dividing flow among `children`. """
+    # Each child's capacity is truncated to an int, and what's lost is
+    # carried by other edges:
+    return 2 * len(children)
+
 def _swap_saturated(
         saturated, non_saturated, node, children, graph, flows,
         outbound_nodes=None):
@@ -485,7 +494,9 @@ def _swap_saturated(
         if child in saturated:
             new_capacity = graph[outbound_node][child][CAPACITY_KEY]
             old_capacity = flows[outbound_node][child]
-            if new_capacity != old_capacity:
+            # Capacities and flows are rounded to integers at each step,
+            # so ignore differences that are explained by rounding:
+            if abs(new_capacity - old_capacity) > _rounding_error(children):
                 saturated.remove(child)
                 non_saturated.add(child)
 
@@ -540,17 +551,21 @@ def _classify_children_by_flows(
     underflow_nodes = set()
     overflow_nodes = set()
     saturated_nodes = set()
+    # (Ignore differences that are explained by rounding)
+    rounding = _rounding_error(children)
     # Add each node to exactly one of those sets:
     for child in children:
         # Nodes with flows that are less than their max. 0-weight
         # capacity are underflow nodes:
         if (
                 graph[outbound_node][child][CAPACITY_KEY]
-                > flows[outbound_node][child]):
+                > flows[outbound_node][child] + rounding):
             underflow_nodes.add(child)
         # Nodes that receive flow via overflow_node must be receiving
         # more than their max. 0-weight capacity, and are overflow nodes
-        elif overflow_node is not None and flows[overflow_node][child] > 0:
+        elif (
+                overflow_node is not None
+                and flows[overflow_node][child] > rounding):
             overflow_nodes.add(child)
         # Any other node is receiving exactly its 0-weight capacity, and
         # is a saturated node:
-- 
2.43.0


From 6b7570f71409b1a524a7b1d9570e2a27b716ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 45/79] fix: share what's left after minimums among weighted
 accounts by weight

Flows already assigned in excess of a child's share were deducted twice,
leaving part of the remainder to be assigned arbitrarily.
---
 forecaster/strategy/transaction/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 39c3db8..f70e59e 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -780,11 +780,10 @@ class TransactionTraversal(HighPrecisionOptional):
             recurse_children = {
                 child: weight for child, weight in children.items()
                 if totals[child] > 0}
-            # Capacity should be restored to its original value...
+            # Capacity should be restored to its original value. (This
+            # already excludes all previously-allocated flows, including
+            # any excess flows previously allocated to some children):
             capacity -= flows
-            # ... and further reduced by the amount of excess flows
-            # previously allocated to some children:
-            capacity += sum(total for total in totals.values() if total < 0)
             self._add_weighted_children(
                 node, recurse_children, capacity, **kwargs)
             # As for the children that have been over-allocated flow,
-- 
2.43.0


From 2fd022550578d27c2960dd2a1dd30d1953f8cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 46/79] fix: apply accounts' minimum withdrawals in transaction
 plans

The first (minimums) traversal for withdrawals had no capacity, so
minimum outflows were never assigned. With that repaired, flows already
assigned must reduce (not increase) the remaining capacity for outflows,
and capacities can't be negative.
---
 forecaster/strategy/transaction/base.py  | 22 +++++++++++++++-------
 forecaster/strategy/transaction/graph.py |  5 ++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index f70e59e..03f4a86 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -249,7 +249,11 @@ class TransactionTraversal(HighPrecisionOptional):
             max_limit = LIMIT_TUPLE_FIELDS.max_outflow
             # Limit min. outflows based on what's in the account, not
             # the shortfall we're trying to fill:
-            min_total = float('-inf')
+            min_total = sum(
+                sum(_get_transactions(
+                    account, min_limit, available,
+                    transaction_methods=self.transaction_methods).values())
+                for account in _get_accounts(self._priority_tree))
         else:  # No transactions since total ~= 0
             return {}
 
@@ -605,10 +609,12 @@ class TransactionTraversal(HighPrecisionOptional):
             if limit_value is not None:
                 # Scale up the limit value by `precision` to avoid
                 # rounding issues:
-                limit_value /= self.precision
+                # (Limits on outflows are negative; flows never are.)
+                limit_value = abs(limit_value) / self.precision
                 # Reduce `limit_value` based on any memoized flows
                 # through `node`:
-                limit_value -= _flows_through(node, flows=self.memo)
+                limit_value = max(
+                    limit_value - _flows_through(node, flows=self.memo), 0)
                 # Use the lesser of `capacity` and `limit_value`;
                 # successors use this to determine their edge capacities
                 capacity = min(capacity, limit_value)
@@ -1160,8 +1166,8 @@ class TransactionTraversal(HighPrecisionOptional):
                 isinstance(transaction_limit,float)):
             transaction_limit = self.high_precision(transaction_limit)
         # Scale up based on the precision (as we do with all edge
-        # capacities):
-        capacity = transaction_limit / self.precision
+        # capacities). (Outflows are negative; capacities never are.)
+        capacity = abs(transaction_limit) / self.precision
 
         # Most accounts add an edge straight to `sink`, but accounts
         # that have shared transaction limits have special treatment:
@@ -1172,7 +1178,8 @@ class TransactionTraversal(HighPrecisionOptional):
             # `group_node` (which accounts for all flows through all
             # of the linked nodes of the group)
             # This prevents inadvertent over-contribution/withdrawal:
-            capacity -= _flows_through(group_node, flows=self.memo)
+            capacity = max(
+                capacity - _flows_through(group_node, flows=self.memo), 0)
             _add_edge(
                 self.graph, node, group_node,
                 capacity=capacity, limit=capacity)
@@ -1181,7 +1188,8 @@ class TransactionTraversal(HighPrecisionOptional):
             node = group_node
         else:
             # Reduce capacity based on any memoized flows through `node`
-            capacity -= _flows_through(node, flows=self.memo)
+            capacity = max(
+                capacity - _flows_through(node, flows=self.memo), 0)
 
         # Send an edge from the node to the sink, if provided:
         if self.sink is not None:
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 4731bee..8390574 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -149,7 +149,10 @@ def _add_edge(
 
         # Reduce capacity by any previously-allocated flows over this
         # edge:
-        capacity -= _flows_through(from_node, to_node, flows=memo)
+        # (This can exceed the capacity, e.g. if minimum withdrawals are
+        # larger than the amount needed)
+        capacity = max(
+            capacity - _flows_through(from_node, to_node, flows=memo), 0)
         # Only assign `capacity` as an edge value if it is finite.
         # (networkx doesn't deal well with float('inf'). The
         # "capacity" attr should be absent if capacity is unbounded.)
-- 
2.43.0


From 053e950bb7ae03793ec240e55ffd6355e521d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 47/79] fix: keep low-interest debts in order of priority once
 any is repaid

The ordered subtree was only used if the debts with balances were
exactly the members of a weight group, so repaying one debt (or giving
a subclass of Debt its own weight) lost the avalanche/snowball order.
---
 forecaster/strategy/transaction/strategy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index db0b13b..aa2bfbb 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -305,11 +305,10 @@ class TransactionStrategy(Strategy):
     def __call__(self, available, accounts, *args, **kwargs):
         """ Returns a dict of account: transaction pairs. """
         # Debts get special treatment, so separate them out here:
-        low_interest_debts, high_interest_debts = self.divide_debts(accounts)
+        _, high_interest_debts = self.divide_debts(accounts)
         # Get priority trees for each debt. These will be inserted into
         # the final priority tree differently (in-place replacement for
         # low-interest, prepending for high-interest.)
-        low_interest_priority = self.debt_priority(low_interest_debts)
         high_interest_priority = self.debt_priority(high_interest_debts)
 
         # Group together accounts that share weights (and map them to
@@ -319,7 +318,11 @@ class TransactionStrategy(Strategy):
 
         # Ensure that low-interest debts are properly ordered, rather
         # than assigned some default order based on their common typing:
-        subtrees = {low_interest_debts: low_interest_priority}
+        # (Groups can also include debts with no outstanding balance, and
+        # debts can be divided between groups)
+        subtrees = {
+            group: self.debt_priority(group) for group in groups
+            if group and all(isinstance(account, Debt) for account in group)}
 
         # Get the basic priority tree based on this strategy:
         priority = super().__call__(
-- 
2.43.0


From 7953b342e464c1ea2301e11e8a2e03884b451bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 48/79] fix: order tied debts the same way every time

Debts are usually given as sets, so ties between rates (or balances) were
broken arbitrarily and repeated forecasts differed.
---
 forecaster/strategy/debt_payment/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/debt_payment/util.py b/forecaster/strategy/debt_payment/util.py
index 524bf2f..d86fc8a 100644
--- a/forecaster/strategy/debt_payment/util.py
+++ b/forecaster/strategy/debt_payment/util.py
@@ -20,8 +20,10 @@ def avalanche_priority(debts):
     Returns:
         list[Debt]: An ordered list of Debts.
     """
+    # (Break ties so that the order doesn't depend on how a collection of
+    # debts happens to be ordered)
     return sorted(
-        debts, key=lambda account: account.rate, reverse=True)
+        debts, key=lambda account: (-account.rate, abs(account.balance)))
 
 def snowball_priority(debts):
     """ A priority tree of debts according to the snowball strategy.
@@ -35,8 +37,10 @@ def snowball_priority(debts):
     Returns:
         list[Debt]: An ordered list of Debts.
     """
+    # (Break ties so that the order doesn't depend on how a collection of
+    # debts happens to be ordered)
     return sorted(
-        debts, key=lambda account: abs(account.balance), reverse=False)
+        debts, key=lambda account: (abs(account.balance), -account.rate))
 
 # Make it easy for client code to find the keys for the available
 # strategies (and then use them with DebtPaymentStrategy or to look
-- 
2.43.0


From bd21e4055337f4a4e850e5a9708026d8f80472f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 49/79] fix: a TransactionNode built from another node keeps
 its children

---
 forecaster/strategy/transaction/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index a190bf9..0a95fa6 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -54,6 +54,7 @@ class TransactionNode:
             # Copy initialization:
             self.source = source.source
             self.limits = source.limits
+            self.children = source.children
             return
 
         # Hold on to the original list/dict/whatever.
-- 
2.43.0


From fa7474b444c221d360871b10f374e33a56606eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 50/79] fix: accept custom transaction and group methods in
 TransactionTraversal

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 03f4a86..f7637dd 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -186,11 +186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         if transaction_methods is None:
             self.transaction_methods = transaction_default_methods()
         else:
-            self.transaction_methods = LimitTuple(transaction_methods)
+            self.transaction_methods = LimitTuple(*transaction_methods)
         if group_methods is None:
             self.group_methods = group_default_methods()
         else:
-            self.group_methods = LimitTuple(group_methods)
+            self.group_methods = LimitTuple(*group_methods)
         # Convert `precision` to high-precision if it's the default
         # argument and a conversion method has been passed:
         if precision == EPSILON and self.high_precision is not None:
-- 
2.43.0


From 495bfdd9df0c4a207cb5f8ceca2fd24d20872a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 51/79] fix: a transaction plan with no eligible accounts is
 empty

---
 forecaster/strategy/transaction/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index f7637dd..e1cdd76 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -468,6 +468,8 @@ class TransactionTraversal(HighPrecisionOptional):
 
         # Create an empty graph:
         self.graph = _get_empty_graph()
+        # (If there are no accounts then no edges to `sink` are added)
+        self.graph.add_node(self.sink)
         # We could use the root node of the tree as the graph's source
         # node, but it's convenient if each node can determine the
         # capacities of its outbound weights based on the capacities
-- 
2.43.0


From d0f1d3afde9d72513b56bfe14387037f8b03afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 52/79] fix: allow for weighted nodes with no children

---
 forecaster/strategy/transaction/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index e1cdd76..095e171 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -672,6 +672,11 @@ class TransactionTraversal(HighPrecisionOptional):
             # This will be distributed to outbound edges.
             capacity = _inbound_capacity(self.graph, node)
 
+        # There's nothing to distribute capacity to if there are no
+        # children (e.g. because no accounts have been given a weight)
+        if not children:
+            return
+
         if add_overflow:
             # For weighted nodes, we want to prioritize assigning flows
             # as dictated by the nodes' weights, while still allowing
-- 
2.43.0


From 58866f30526d594a541f467bbe2c32828d769c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 53/79] fix: exhaust each ordered choice before later ones,
 including overflows

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 095e171..74c894e 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1072,8 +1072,8 @@ class TransactionTraversal(HighPrecisionOptional):
             self._add_successors(child, **kwargs)
             # Ensure that assigning flows to the next child in sequence
             # has a penalty larger than any path through the current
-            # child's successors:
-            weight = max(weight, _sum_weight(self.graph, child)) + 1
+            # child's successors (including the edge to that child):
+            weight += _sum_weight(self.graph, child) + 1
 
     def _add_node_leaf(
             self, node, child, *, capacity=None, **kwargs):
-- 
2.43.0


From 242e1ed899c65e16c196ed178f1f301394db8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 54/79] fix: don't assign minimum flows if assign_min is False

---
 forecaster/strategy/transaction/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 74c894e..ad1ab22 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -265,9 +265,12 @@ class TransactionTraversal(HighPrecisionOptional):
         self.outbound_nodes = {}
         self.overflow_nodes = {}
         # Build and traverse a graph based on `priority`
-        # First traverse to assign min. flows:
-        min_transactions = self._traverse_priority(
-            min_total, available, min_limit)
+        # First traverse to assign min. flows (if requested):
+        if assign_min:
+            min_transactions = self._traverse_priority(
+                min_total, available, min_limit)
+        else:
+            min_transactions = {}
         # Then traverse to assign max. flows. Pass in `memo` to ensure
         # that the flows assigned previously are respected
         max_transactions = self._traverse_priority(
-- 
2.43.0


From b0b1fc714cba73b7e4b0eeb0c22f77ac89b16dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 55/79] fix: ValueReader.write accepts a ValueReader, as
 documented

---
 forecaster/value_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index bdfa1ba..7237aee 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -364,6 +364,9 @@ class ValueReader(HighPrecisionOptional):
         # If no values are provided, use this object's `values`:
         if vals is None:
             vals = self.values
+        # If another object was provided, use its `values`:
+        elif isinstance(vals, ValueReader):
+            vals = vals.values
 
         filename = resolve_path(filename)
 
-- 
2.43.0


From 15a6642a45b3577376f0c154c22cc8f67bd46718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 56/79] fix: write dicts with high-precision or mixed keys

---
 forecaster/value_reader.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 7237aee..7d74781 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -374,8 +374,7 @@ class ValueReader(HighPrecisionOptional):
         encoder_args = {
             'ensure_ascii': True, # Escape non-ASCII characters
             'allow_nan': True, # Required to support float('inf')
-            'indent': 2, # Pretty-print with indenting,
-            'sort_keys': True # Sort to make it easier for humans to read
+            'indent': 2 # Pretty-print with indenting
         }
 
         # Use the custom encoder provided by client code, if any:
@@ -389,5 +388,35 @@ class ValueReader(HighPrecisionOptional):
                 self.high_precision_serialize)
 
         # Write the serialized values to file:
+        vals = self._prepare_keys(vals)
         with open(filename, "w", encoding="utf-8") as file:
             json.dump(vals, file, cls=cls, **encoder_args)
+
+    def _prepare_keys(self, vals):
+        """ Sorts the entries of each dict and encodes its keys.
+
+        Reading converts numeric keys, so a dict may have both numeric
+        and str keys (which can't be compared) as well as high-precision
+        keys (which JSON encoders don't support).
+        """
+        if isinstance(vals, (list, tuple)):
+            return [self._prepare_keys(val) for val in vals]
+        if not isinstance(vals, dict):
+            return vals
+        # Sort to make it easier for humans to read (numbers go first):
+        items = sorted(
+            vals.items(),
+            key=lambda item: (isinstance(item[0], str), item[0]))
+        return {
+            self._encode_key(key): self._prepare_keys(val)
+            for (key, val) in items}
+
+    def _encode_key(self, key):
+        """ Serializes high-precision keys; returns others unchanged. """
+        if (
+                self.high_precision is None or
+                not isinstance(key, type(self.high_precision(0)))):
+            return key
+        if self.high_precision_serialize is not None:
+            return self.high_precision_serialize(key)
+        return str(key)
-- 
2.43.0


From 554e953f610c6db2dff6f49a3aa40196b89729da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 57/79] fix: read numeric text when high_precision only accepts
 float

---
 forecaster/value_reader.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 7d74781..15719ae 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -335,12 +335,8 @@ class ValueReader(HighPrecisionOptional):
             return vals
 
         # Now we know `vals` is a numeric-convertible str. Convert it:
-        # Use high-precision numeric type if supported:
-        if self.high_precision is not None:
-            value = self.high_precision(vals)
-        # Otherwise, use float:
-        else:
-            value = float_val
+        # Use high-precision numeric type if supported (otherwise float):
+        value = self._parse_float(vals)
         # Prefer int representation if possible:
         # (Infinite and NaN values can't be represented as int)
         if math.isfinite(float_val) and int(value) == value:
-- 
2.43.0


From b6c311c97572f37c65f91fe1e7f9f714d4209776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 58/79] fix: time_to_balance works in high-precision mode

---
 forecaster/accounts/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 7d2f9fc..56babc4 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -114,13 +114,13 @@ def accumulation_function_inverse(accum, rate, nper=1, *, high_precision=None):
     # Use the exponential formula for continuous compounding: a=e^rt
     # Derive from this t=ln(a)/r
     if nper is None:
-        # math.exp(rate * t) throws a warning, since there's an
-        # implicit float-Decimal multiplication.
-        timing = math.log(accum, high_precision(math.e)) / rate
+        # (math.log returns a float, so convert it to high-precision)
+        timing = high_precision(math.log(accum)) / rate
     # Otherwise use the discrete formula: a=(1+r/n)^nt
     # Derive from this t=log(a,1+r/n)/n
     else:
-        timing = math.log(accum, high_precision(1) + rate / nper) / nper
+        timing = high_precision(
+            math.log(accum, high_precision(1) + rate / nper)) / nper
 
     return timing
 
-- 
2.43.0


From f9d3afee219b69a68c4b9f16b7cbf589771bab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 59/79] fix: Timing built from a frequency code is
 high-precision

---
 forecaster/utility/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index 005fddd..ea25303 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -79,6 +79,8 @@ class Timing(dict):
             if isinstance(when, str) and when in FREQUENCY_MAPPING:
                 frequency = when
                 when = WHEN_DEFAULT  # default value
+                if high_precision is not None:
+                    when = high_precision(when)
             # Arguments might be str-valued; make them numeric:
             when = when_conv(when, high_precision=high_precision)
             frequency = frequency_conv(frequency)
-- 
2.43.0


From 36abde1a137754d95af7325d1f1e829ffd8b76fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 60/79] fix: debts are accelerated by default in high-precision
 mode

---
 forecaster/accounts/debt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/accounts/debt.py b/forecaster/accounts/debt.py
index 4e13510..abe7c34 100644
--- a/forecaster/accounts/debt.py
+++ b/forecaster/accounts/debt.py
@@ -61,6 +61,9 @@ class Debt(Account):
 
         # Set up (and type-convert) Debt-specific inputs:
         self.minimum_payment = minimum_payment
+        # (The default is a float, which may need to be converted)
+        if accelerated_payment == float('inf'):
+            accelerated_payment = self.precision_convert(float('inf'))
         self.accelerated_payment = accelerated_payment
 
         # Debt must have a negative balance
-- 
2.43.0


From cd44105910f7cab87ef3e50d1f2a89b39a0dd32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 61/79] fix: all Timings built in high-precision mode have
 high-precision keys

---
 forecaster/utility/timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index ea25303..37f2316 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -79,10 +79,10 @@ class Timing(dict):
             if isinstance(when, str) and when in FREQUENCY_MAPPING:
                 frequency = when
                 when = WHEN_DEFAULT  # default value
-                if high_precision is not None:
-                    when = high_precision(when)
             # Arguments might be str-valued; make them numeric:
             when = when_conv(when, high_precision=high_precision)
+            if high_precision is not None:
+                when = high_precision(when)
             frequency = frequency_conv(frequency)
 
             # Build out multiple timings based on scalar inputs.
-- 
2.43.0


From 88f8dbbe252e9c80f5deb43bcd404bd267b0b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 62/79] fix: timings of tax payments and refunds are
 high-precision

---
 forecaster/tax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 892967e..ac976ae 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -280,7 +280,8 @@ class Tax(HighPrecisionOptional):
     @payment_timing.setter
     def payment_timing(self, val):
         """ Sets `payment_timing`. """
-        self._payment_timing = Timing(val)
+        self._payment_timing = Timing(
+            val, high_precision=self.high_precision)
 
     @property
     def refund_timing(self):
@@ -290,7 +291,8 @@ class Tax(HighPrecisionOptional):
     @refund_timing.setter
     def refund_timing(self, val):
         """ Sets `refund_timing`. """
-        self._refund_timing = Timing(val)
+        self._refund_timing = Timing(
+            val, high_precision=self.high_precision)
 
     def marginal_bracket(self, taxable_income, year):
         """ The top tax bracket that taxable_income falls into. """
-- 
2.43.0


From a761fd828baef909c597006c28b2898a5a83ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 63/79] fix: don't let rounding error move a transaction to a
 later time

---
 forecaster/forecast/subforecast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 6b44768..1a29e1a 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -4,7 +4,7 @@ from collections import defaultdict
 from collections.abc import Hashable
 from forecaster.ledger import Ledger, recorded_property
 from forecaster.accounts import Account
-from forecaster.utility import Timing
+from forecaster.utility import EPSILON, Timing
 
 class TransactionDict(defaultdict):
     """ A defaultdict that accepts unhashable keys.
@@ -407,10 +407,12 @@ class SubForecast(Ledger):
 
         # Find the points in time where subtracting `value`
         # would not put any future point in time into negative
-        # balance.
+        # balance. (Rounding error in the amounts available doesn't
+        # make a balance negative.)
         eligible_times = (
             t for t in accum if all(
-                accum[r] >= value for r in accum if r >= t))
+                accum[r] >= value or value - accum[r] <= EPSILON
+                for r in accum if r >= t))
 
         # Find the earliest valid time (or, if none exists,
         # use `when`)
-- 
2.43.0


From ddebcf8c9abfec5d65d6b55788373a822ecb0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 64/79] fix: report the amounts actually withdrawn as gross
 withdrawals

---
 forecaster/forecast/withdrawal.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 82621a4..a08d1f0 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -3,7 +3,7 @@
 from forecaster.ledger import (
     recorded_property, recorded_property_cached)
 from forecaster.forecast.subforecast import SubForecast
-from forecaster.utility import transactions_from_timing
+from forecaster.utility import EPSILON, transactions_from_timing
 
 class WithdrawalForecast(SubForecast):
     """ A forecast of withdrawals from a portfolio over time.
@@ -138,11 +138,19 @@ class WithdrawalForecast(SubForecast):
     @recorded_property_cached
     def gross_withdrawals(self):
         """ Total gross withdrawals for the year. """
-        # The amount withdrawn is simply the shortfall in cashflow
-        # over the course of the year.
         # TODO: Increase gross withdrawals based on tax liability #34
         # Aim is for `net_withdrawals` to approximate `total_available`.
-        return -self.total_available
+        withdrawn = -sum(
+            (sum(transactions.values())
+             for transactions in self.account_transactions.values()),
+            self.precision_convert(0)) # Money value
+        # Ordinarily, the amount withdrawn is simply the shortfall in
+        # cashflow over the course of the year (up to rounding). It's
+        # less where accounts don't cover the shortfall, and nothing is
+        # withdrawn where there's a surplus.
+        if abs(withdrawn + self.total_available) <= EPSILON:
+            return -self.total_available
+        return withdrawn
 
     @recorded_property
     def net_withdrawals(self):
-- 
2.43.0


From 791dea4971d5c1a556f2ffb95f5c2d8c7a67d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 65/79] fix: don't withdraw from accounts when saving

---
 forecaster/forecast/saving.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 101e0db..1c04aaf 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -49,9 +49,15 @@ class SavingForecast(SubForecast):
         # started on doing the updates:
         super().__call__(available)
 
-        accounts = set(self.retirement_accounts).union(self.debt_accounts)
-        self.account_transactions = self.transaction_strategy(
-            available, accounts=accounts)
+        # There's nothing to contribute if there's a shortfall. (Making
+        # withdrawals to cover it isn't this class's job.)
+        if self.total_available > 0:
+            accounts = set(self.retirement_accounts).union(
+                self.debt_accounts)
+            self.account_transactions = self.transaction_strategy(
+                available, accounts=accounts)
+        else:
+            self.account_transactions = {}
 
         # NOTE: We let the transactions_strategy determine
         # timing. It will use each account's default timing. Consider
-- 
2.43.0


From f8aed34dca7841257e2dcb728ee0e3ac8c4513d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 66/79] fix: don't contribute to accounts when withdrawing

---
 forecaster/forecast/withdrawal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index a08d1f0..d5fc4e9 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -57,8 +57,13 @@ class WithdrawalForecast(SubForecast):
         # started on doing the updates:
         super().__call__(available)
 
-        self.account_transactions = self.transaction_strategy(
-            available, accounts=self.accounts)
+        # There's nothing to withdraw if there isn't a shortfall. (Making
+        # contributions isn't this class's job.)
+        if self.total_available < 0:
+            self.account_transactions = self.transaction_strategy(
+                available, accounts=self.accounts)
+        else:
+            self.account_transactions = {}
 
         # pylint: disable=not-an-iterable,unsubscriptable-object,no-member
         # pylint can't infer the type of account_transactions
-- 
2.43.0


From 7751a9ce1762ff4ce64eb2d765e04fdfbee60d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 67/79] fix: give the spousal credit to the same person each
 time a tie is broken

---
 forecaster/canada/tax.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 8837413..adf067a 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -99,8 +99,9 @@ class TaxCanadaJurisdiction(Tax):
         will be determined for each individually.
 
         Where both partners have the same income, the credit is
-        assigned to one partner in an implementation-dependent
-        way (e.g. based on a hash).
+        assigned to one partner in an implementation-dependent way
+        (based on their names and birth dates, so that copies of a
+        couple are treated in the same way as the original).
 
         Args:
             person (Person): One member of a couple (or a single
@@ -139,10 +140,13 @@ class TaxCanadaJurisdiction(Tax):
             - self.deduction(person, year))
         if person_net_income < spouse_net_income:
             return 0 # Money value
-        # If their incomes are the same, use memory location to
-        # decide in a deterministic way:
+        # If their incomes are the same, use something which doesn't
+        # change between runs to decide in a deterministic way. (Use
+        # memory location only if they can't be told apart.)
         if person_net_income == spouse_net_income:
-            if id(person) < id(spouse):
+            if (
+                    (str(person.name), person.birth_date, id(person))
+                    < (str(spouse.name), spouse.birth_date, id(spouse))):
                 return 0 # Money value
 
         # The credit is determined by reducing the spousal amount
-- 
2.43.0


From d4a066cd73e782950c5058eb354ceced4d08a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 68/79] fix: make living expenses independent of the order of
 people

---
 forecaster/forecast/living_expenses.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index d3b2264..9fe1376 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -1,7 +1,9 @@
 """ Provides a LivingExpensesForecast class for use by Forecast. """
 
+from collections import defaultdict
 from forecaster.ledger import recorded_property_cached
 from forecaster.forecast.subforecast import SubForecast
+from forecaster.utility import transactions_from_timing
 
 class LivingExpensesForecast(SubForecast):
     """ A forecast of each year's living expenses.
@@ -58,11 +60,19 @@ class LivingExpensesForecast(SubForecast):
             # no shares of income, so share living expenses equally:
             share = self.precision_convert(1) / len(self.people)
             income_weights = {person: share for person in self.people}
+        # Pool everyone's expenses, since adding a transaction may defer
+        # it based on the transactions already added. (This way, results
+        # don't depend on the order of `people`.)
+        transactions = defaultdict(lambda: 0) # Money values
         for person in self.people:
-            self.add_transaction(
-                self.living_expenses * income_weights[person],
-                timing=person.payment_timing,
-                from_account=available, to_account=None)
+            expenses = self.living_expenses * income_weights[person]
+            for when, value in transactions_from_timing(
+                    person.payment_timing, expenses).items():
+                transactions[when] += value
+        for when in sorted(transactions):
+            self._add_transaction(
+                transactions[when], when,
+                from_account=available, to_account=None, strict_timing=False)
 
     @recorded_property_cached
     def living_expenses(self):
-- 
2.43.0


From 787aeb8a0306cc66c14008d83083b026218c6593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 69/79] fix: add transactions in order of time

---
 forecaster/forecast/subforecast.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 1a29e1a..10c973a 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -253,9 +253,11 @@ class SubForecast(Ledger):
                 later than `when` if this avoids putting accounts in
                 a negative balance. If True, `when` is always used.
         """
-        for when, value in transactions.items():
+        # (Go in order of time, since where a transaction is deferred to
+        # depends on the transactions already added.)
+        for when in sorted(transactions):
             self.add_transaction(
-                value=value, timing=when,
+                value=transactions[when], timing=when,
                 from_account=from_account, to_account=to_account,
                 strict_timing=strict_timing)
 
@@ -329,8 +331,10 @@ class SubForecast(Ledger):
         total_weight = sum(timing.values())
         # Add a transaction at each timing, with a transaction value
         # proportionate to the (normalized) weight for its timing:
-        for when, weight in timing.items():
-            weighted_value = value * (weight / total_weight)
+        # (Go in order of time, since where a transaction is deferred to
+        # depends on the transactions already added.)
+        for when in sorted(timing):
+            weighted_value = value * (timing[when] / total_weight)
             self._add_transaction(
                 value=weighted_value, when=when,
                 from_account=from_account, to_account=to_account,
-- 
2.43.0


From 86acb6def11dd15a6e18aa05488b37fcdfb84db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 70/79] fix: allow withdrawals from empty taxable accounts

---
 forecaster/canada/accounts/taxable_account.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 533cdb3..1cc9347 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -112,6 +112,11 @@ class TaxableAccount(Account):
                 # Capital gains are calculated based on the acb and
                 # balance before the transaction occurred.
                 balance = self.balance_at_time(when) - value
+                # If the account is empty then there's nothing to sell:
+                # it's overdrawn (until that's offset by an inflow).
+                if balance == 0:
+                    acb += value
+                    continue
                 capital_gain += -value * (
                     self.precision_convert(1) - (acb / balance))
                 acb *= self.precision_convert(1) - (-value / balance)
-- 
2.43.0


From a330f31cec217c03aa0d04a506c0a8fcdb70d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 71/79] fix: don't let the last member of a group limit the
 whole group

---
 forecaster/strategy/transaction/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index ad1ab22..bb3823b 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -28,7 +28,8 @@ from forecaster.strategy.transaction.graph import (
     _get_empty_graph, _add_edge, _flows_through, _generate_flows,
     _inbound_capacity, _merge_flows, _outbound_capacity, _sum_weight,
     _get_outbound_node, _get_overflow_node, _classify_children_by_flows,
-    _swap_saturated, _restrict_overflow, _unrestrict_overflow)
+    _swap_saturated, _restrict_overflow, _unrestrict_overflow,
+    CAPACITY_KEY)
 
 
 class TransactionTraversal(HighPrecisionOptional):
@@ -1196,6 +1197,14 @@ class TransactionTraversal(HighPrecisionOptional):
             # We're done with the original account node; all further
             # edges will be from the group node.
             node = group_node
+            # Members of the group can have different capacities (e.g.
+            # because they have different balances); don't let the
+            # group be limited by whichever member is added last:
+            if self.graph.has_edge(node, self.sink):
+                capacity = max(
+                    capacity,
+                    self.graph[node][self.sink].get(
+                        CAPACITY_KEY, float('inf')))
         else:
             # Reduce capacity based on any memoized flows through `node`
             capacity = max(
-- 
2.43.0


From c5a4c66af195d036b4ec7ea9b272b02b1ed7eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 72/79] fix: debt_payment_strategy setting determines the order
 of debt payments

---
 forecaster/forecaster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 21a34d9..edc9e39 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -58,7 +58,8 @@ DEFAULTVALUES = {
         "inflation_adjust": "scenario.inflation_adjust"},
     str(Parameter.SAVING_STRATEGY): {
         "strategy": "settings.saving_strategy",
-        "weights": "settings.saving_weights"},
+        "weights": "settings.saving_weights",
+        "debt_strategy": "settings.debt_payment_strategy"},
     str(Parameter.WITHDRAWAL_STRATEGY): {
         "strategy": "settings.withdrawal_strategy",
         "weights": "settings.withdrawal_weights"},
-- 
2.43.0


From d655481d1756d8d993cb8ec84b8785ff14d6542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 73/79] fix: accept explicit timings when building Canadian tax
 treatments

---
 forecaster/canada/tax.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index adf067a..c94591b 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -18,6 +18,9 @@ class TaxCanadaJurisdiction(Tax):
             self.constants = ConstantsCanada(high_precision=high_precision)
         else:
             self.constants = constants
+        # (Timings may be provided explicitly)
+        kwargs.setdefault('refund_timing', self.constants.TAX_REFUND_TIMING)
+        kwargs.setdefault('payment_timing', self.constants.TAX_PAYMENT_TIMING)
         # All the work here is done by the superclass, we just need to
         # tell it what brackets/credits/deductions/timing to apply:
         super().__init__(
@@ -27,8 +30,6 @@ class TaxCanadaJurisdiction(Tax):
             ],
             credit_rate=self.constants.TAX_CREDIT_RATE[jurisdiction],
             inflation_adjust=inflation_adjustments,
-            refund_timing=self.constants.TAX_REFUND_TIMING,
-            payment_timing=self.constants.TAX_PAYMENT_TIMING,
             high_precision=high_precision,
             **kwargs)
 
@@ -170,7 +171,8 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
     """
 
     def __init__(
-            self, inflation_adjust, province='BC', constants=None, **kwargs):
+            self, inflation_adjust, province='BC', constants=None,
+            *, high_precision=None, **kwargs):
         """ Initializes TaxCanada.
 
         Args:
@@ -186,13 +188,15 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
                 payments. See `Tax` documentation for more information.
         """
         self.federal_tax = TaxCanadaJurisdiction(
-            inflation_adjust, constants=constants, **kwargs)
+            inflation_adjust, constants=constants,
+            high_precision=high_precision, **kwargs)
         self.provincial_tax = TaxCanadaJurisdiction(
-            inflation_adjust, province, constants=constants, **kwargs)
+            inflation_adjust, province, constants=constants,
+            high_precision=high_precision, **kwargs)
         self.province = province
 
         jurisdictions = (self.federal_tax, self.provincial_tax)
-        super().__init__(jurisdictions, **kwargs)
+        super().__init__(jurisdictions, high_precision=high_precision)
 
     def __call__(
             self, income, year,
-- 
2.43.0


From f07982afe2f5e242f3407e24cf4ace0f690d3de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 74/79] fix: re-link registered accounts when their contributor
 changes

---
 forecaster/canada/accounts/registered_account.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 05fef68..24d95bd 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -4,7 +4,7 @@ These accounts come in various forms, but in general they have a
 contributor and finite contribution room that grows from year to year.
 """
 
-from forecaster.accounts import LinkedLimitAccount
+from forecaster.accounts import AccountLink, LinkedLimitAccount
 from forecaster.ledger import recorded_property
 from forecaster.canada.constants import ConstantsCanada
 from forecaster.utility import build_inflation_adjust
@@ -101,7 +101,14 @@ class RegisteredAccount(LinkedLimitAccount):
     @contributor.setter
     def contributor(self, val):
         """ Sets the `contributor` property. """
-        self.max_inflow_link.owner = val
+        link = AccountLink(
+            (val, self.max_inflow_link.token),
+            default_factory=self.max_inflow_link.default_factory)
+        # Contributions now count towards the new contributor's room
+        # (and no longer towards the old contributor's):
+        self.max_inflow_link.unlink_account(self)
+        self.max_inflow_link = link
+        self.max_inflow_link.link_account(self)
 
     @recorded_property
     def contribution_room(self):
-- 
2.43.0


From cef48923dea11179b6edda8f8daa2f9bafbb137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 75/79] fix: time to reach a zero balance doesn't crash

---
 forecaster/accounts/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 56babc4..8745669 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -162,10 +162,12 @@ def time_to_value(rate, value_now, value_then, nper=1, *, high_precision=None):
     Returns:
         A Decimal object representing the time required to
         grow (or shrink) from `value_now` to `value_then`.
-        This is infinite if growth can never lead there (e.g. from a
-        zero value or to a value with the opposite sign).
+        This is infinite if growth can never lead there (e.g. from or
+        to a zero value or to a value with the opposite sign).
     """
-    if value_now == 0 or value_then / value_now < 0:
+    if value_now == value_then:
+        return 0 if high_precision is None else high_precision(0)
+    if value_now == 0 or value_then / value_now <= 0:
         infinity = float('inf')
         if high_precision is not None:
             infinity = high_precision(infinity)
-- 
2.43.0


From 8907c8f409de3853d2d985d49f05da15047d1802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 76/79] fix: the money available in an account isn't negative

---
 forecaster/forecast/subforecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 10c973a..d2265c1 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -207,7 +207,7 @@ class SubForecast(Ledger):
             # Consider whether we should instead sum over transactions
             # (for dicts and Accounts) and then add the account opening
             # balance (only for Accounts).
-            self.total_available = available.max_outflow(1)
+            self.total_available = -available.max_outflow(1)
         else:
             self.total_available = sum(available.values())
 
-- 
2.43.0


From 903eeab44d0f1f35632a936b542433cc4c638cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:29 +0000
Subject: [PATCH 77/79] fix: don't draw money from an account before it's there

---
 forecaster/forecast/subforecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index d2265c1..8bfa16b 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -489,5 +489,5 @@ class SubForecast(Ledger):
                     # If that time falls within the period
                     # (earlier, later), then add it!
                     if time > earlier and time < later:
-                        accum[time] = -sum(account.max_outflows(time).values())
+                        accum[time] = -account.max_outflow(time)
         return accum
-- 
2.43.0


From 9030c52a92a0cb34b00453f6a9198b7fa5990e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:02 +0000
Subject: [PATCH 78/79] fix: don't overdraw a growing account when money is
 drawn ahead of an outflow

---
 forecaster/forecast/subforecast.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 8bfa16b..3432b8b 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -413,10 +413,22 @@ class SubForecast(Ledger):
         # would not put any future point in time into negative
         # balance. (Rounding error in the amounts available doesn't
         # make a balance negative.)
-        eligible_times = (
-            t for t in accum if all(
-                accum[r] >= value or value - accum[r] <= EPSILON
-                for r in accum if r >= t))
+        def enough(available, needed):
+            """ Whether `available` covers `needed`. """
+            return available >= needed or needed - available <= EPSILON
+
+        if isinstance(account, Account):
+            # What's withdrawn no longer grows, so the balance at later
+            # times isn't reduced by exactly `value`:
+            eligible_times = (
+                t for t in accum if enough(accum[t], value) and all(
+                    enough(account.balance_at_time(
+                        r, transactions={t: -value}), 0)
+                    for r in accum if r > t))
+        else:
+            eligible_times = (
+                t for t in accum if all(
+                    enough(accum[r], value) for r in accum if r >= t))
 
         # Find the earliest valid time (or, if none exists,
         # use `when`)
-- 
2.43.0


From e5a78d89b83d4e8ddb0eb368afbfa663f6f47000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 79/79] fix: find the time a balance is reached at or after the
 time asked from

---
 forecaster/accounts/base.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 2bfc7e7..9e6465d 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -6,7 +6,7 @@ from forecaster.person import Person
 from forecaster.ledger import (
     TaxSource, recorded_property, recorded_property_cached)
 from forecaster.utility import (
-    Timing, when_conv, frequency_conv, add_transactions)
+    EPSILON, Timing, when_conv, frequency_conv, add_transactions)
 from forecaster.accounts.util import (
     accumulation_function, value_at_time, time_to_value)
 
@@ -959,12 +959,26 @@ class Account(TaxSource):
             self.rate, balance, value, nper=self.nper,
             high_precision=self.high_precision)
 
-        # Now look ahead to the next transaction and, if it happens
-        # before `time`, recurse onto that transaction's timing:
+        # The balance may have been at `value` only before `when` (but
+        # rounding error doesn't count):
+        if when - time > EPSILON:
+            time = self.precision_convert(float('inf'))
+        time = max(time, when)
+
+        # Now look ahead to the next transaction. If it happens before
+        # `time` then it may take the balance to (or past) `value`;
+        # otherwise, recurse onto that transaction's timing:
         next_transaction = min(
             (key for key in self.transactions if key > when),
             default=time)
         if next_transaction < time:
-            time = self.time_to_balance(value, next_transaction)
+            before = value_at_time(
+                balance, self.rate, when, next_transaction, nper=self.nper,
+                high_precision=self.high_precision)
+            after = self.balance_at_time(next_transaction)
+            if min(before, after) <= value <= max(before, after):
+                time = next_transaction
+            else:
+                time = self.time_to_balance(value, next_transaction)
 
         return time
-- 
2.43.0

