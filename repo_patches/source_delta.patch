From 2082f05f5d699797b956390821d4d744aa8381c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 01/24] fix: sign of quotient and remainder in BigInteger
 division of big values

---
 src/big_integer.cpp             | 14 ++------------
 src/big_integer_arithmetics.cpp | 11 ++++++++---
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index 1e920dc..391c2dc 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -88,22 +88,18 @@ BigInteger panda::abs(BigInteger input) noexcept
 
 BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& second)
 {
+   sign = Sign::Positive; // only the magnitudes matter, neither quotient nor remainder is negative.
    if ( isMagnitudeSmallerThan(second) )
    {
       BigInteger remainder = *this;
       *this = BigInteger(0);
       return remainder;
    }
-   if ( *this == second )
+   if ( data == second.data )
    {
       *this = BigInteger(1);
       return BigInteger(0);
    }
-   const auto is_negative = isNegative();
-   if ( is_negative )
-   {
-      flipSign();
-   }
    BigInteger result(0);
    BigInteger remainder(0);
    for ( std::size_t it = std::numeric_limits<DataType>::digits * data.size(); it > 0; --it )
@@ -119,12 +115,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
          result.data.front() |= 1;
       }
    }
-   if ( is_negative )
-   {
-      result.flipSign();
-      remainder.flipSign();
-      remainder += second;
-   }
    *this = result;
    return remainder;
 }
diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 211ff32..b4a30e7 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -89,9 +89,9 @@ BigInteger& panda::BigInteger::operator/=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      const auto original_sign = sign;
-      auto r = divideMagnitudesWithRemainder(second);
-      if ( second.sign != original_sign )
+      const auto signs_differ = (sign != second.sign);
+      divideMagnitudesWithRemainder(second);
+      if ( signs_differ )
       {
          flipSign();
       }
@@ -172,7 +172,12 @@ BigInteger& panda::BigInteger::operator%=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
+      const auto was_negative = isNegative();
       *this = divideMagnitudesWithRemainder(second);
+      if ( was_negative && !isZero() )
+      {
+         *this = second - *this;
+      }
       return *this;
    }
 }
-- 
2.43.0


From 4547ab19f670086c777298653427f0b3a2d2ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 02/24] fix: BigInteger modulo of a negative multiple is zero

---
 src/big_integer_arithmetics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index b4a30e7..027ed3f 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -278,7 +278,8 @@ namespace
       const int a = first;
       const int b = second;
       assert( b > 0 );
-      first = BigInteger(((a < 0) ? b : 0) + (a % b));
+      const int remainder = a % b;
+      first = BigInteger((remainder < 0) ? remainder + b : remainder);
       return first;
    }
 }
-- 
2.43.0


From 9606909427463ca3a4c159e94f19f7c0750e962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 03/24] fix: comparison of BigInteger with the least int

---
 src/big_integer_comparisons.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/big_integer_comparisons.cpp b/src/big_integer_comparisons.cpp
index d9b1988..315c1bc 100644
--- a/src/big_integer_comparisons.cpp
+++ b/src/big_integer_comparisons.cpp
@@ -11,6 +11,15 @@
 
 using namespace panda;
 
+namespace
+{
+   /// Absolute value of an int (std::abs is undefined for the least int).
+   uint_fast32_t magnitude(const int value) noexcept
+   {
+      return (value >= 0) ? static_cast<uint_fast32_t>(value) : static_cast<uint_fast32_t>(-(value + 1)) + 1;
+   }
+}
+
 bool panda::BigInteger::operator==(const int value) const noexcept
 {
    if ( data.size() > 1 )
@@ -21,7 +30,7 @@ bool panda::BigInteger::operator==(const int value) const noexcept
    {
       return false;
    }
-   return data[0] == static_cast<decltype(data[0])>(std::abs(value));
+   return data[0] == magnitude(value);
 }
 
 bool panda::BigInteger::operator!=(const int value) const noexcept
@@ -41,7 +50,7 @@ bool panda::BigInteger::operator<(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] > static_cast<DataType>(std::abs(value)));
+      return (data[0] > magnitude(value));
    }
    return (data[0] < static_cast<DataType>(value));
 }
@@ -58,7 +67,7 @@ bool panda::BigInteger::operator>(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] < static_cast<DataType>(std::abs(value)));
+      return (data[0] < magnitude(value));
    }
    return (data[0] > static_cast<DataType>(value));
 }
-- 
2.43.0


From 56b3a4aa595215573fd553c5daad69fc4ac3c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 04/24] fix: conversion of BigInteger to the least int

---
 src/big_integer_constructors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big_integer_constructors.cpp b/src/big_integer_constructors.cpp
index 046e606..12e459b 100644
--- a/src/big_integer_constructors.cpp
+++ b/src/big_integer_constructors.cpp
@@ -145,7 +145,7 @@ panda::BigInteger::operator int() const
    }
    else
    {
-      return -static_cast<int>(data[0]);
+      return -static_cast<int>(data[0] - 1) - 1; // the least int has no positive counterpart
    }
 }
 
-- 
2.43.0


From 0ece053998954fa0e2a18d9a29bc2463b34b6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 05/24] fix: BigInteger multiplication of a big value by itself
 in place

---
 src/big_integer_arithmetics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 027ed3f..d5df853 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -49,8 +49,9 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
       auto copy = *this;
+      const auto factor = second.data; // second may be the same object as this
       data = {0};
-      for ( const auto& entry : second.data )
+      for ( const auto& entry : factor )
       {
          DataType mask = 1;
          for ( int j = 0; j < std::numeric_limits<DataType>::digits; ++j, copy <<= 1, mask <<= 1 )
-- 
2.43.0


From 8b1eaf4f4d82da1e39d4054505f247ac0e5d69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 06/24] fix: image overwritten while its terms are visited in
 map normalisation

---
 src/algorithm_map_operations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 1da5567..910df70 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -142,8 +142,8 @@ namespace
             {
                new_image.push_back(term);
             }
-            image = new_image;
          }
+         image = new_image;
       }
    }
 
-- 
2.43.0


From 5244998939ddbfa63f64a8c52924bbe26c5d2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 07/24] fix: out of bounds access when the first terms of an
 image cancel

---
 src/algorithm_map_operations.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 910df70..6b3cd55 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -176,9 +176,8 @@ namespace
                if ( image[i].second == 0 )
                {
                   image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
-                  --i; // decrement i because the current i needs to be revisited
                }
-               --i; // decrement i because we erased the next item
+               --i; // decrement i because the current i needs to be revisited
             }
          }
       }
-- 
2.43.0


From bd45c15b1f3a7f410d8607352644f8d7573d2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 08/24] fix: substitution of equations with leading coefficient
 other than one in maps

---
 src/algorithm_map_operations.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 6b3cd55..7f44fa3 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -118,11 +118,33 @@ namespace
       }
    }
 
+   /// Checks whether any image in a map contains a term with the given index.
+   bool containsIndex(const Map& map, const Index& index)
+   {
+      for ( const auto& image : map )
+      {
+         for ( const auto& term : image )
+         {
+            if ( term.first == index )
+            {
+               return true;
+            }
+         }
+      }
+      return false;
+   }
+
    /// Use equation to get eliminated index back to zero.
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
       assert( equation[index] != 0 );
+      if ( !containsIndex(map, index) )
+      {
+         return;
+      }
+      // The equation determines |equation[index]| times the eliminated index, so that all images are scaled with it.
+      const int sign = (equation[index] < 0) ? -1 : 1;
       for ( auto& image : map )
       {
          Image new_image;
@@ -134,13 +156,13 @@ namespace
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -term.second * equation[j]));
+                     new_image.push_back(std::make_pair(j, -term.second * sign * equation[j]));
                   }
                }
             }
             else
             {
-               new_image.push_back(term);
+               new_image.push_back(std::make_pair(term.first, term.second * sign * equation[index]));
             }
          }
          image = new_image;
-- 
2.43.0


From e40ec929ef49618ae57ec96e0b0baf48aafc0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 09/24] fix: out of bounds access for unknown names of input
 orders

---
 src/input_detection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index dad421b..76a38dc 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -208,11 +208,13 @@ namespace
 
    InputOrder inputOrder(char* argument)
    {
-      if ( std::strncmp(argument, "lex", 3) == 0 )
+      if ( std::strcmp(argument, "lex") == 0 || std::strncmp(argument, "lex_", 4) == 0 ||
+           std::strcmp(argument, "lexicographic") == 0 || std::strncmp(argument, "lexicographic_", 14) == 0 )
       {
          return inputOrderLexicographic(argument);
       }
-      if ( std::strncmp(argument, "n", 1) == 0 )
+      if ( std::strcmp(argument, "nz") == 0 || std::strncmp(argument, "nz_", 3) == 0 ||
+           std::strcmp(argument, "nonzero") == 0 || std::strncmp(argument, "nonzero_", 8) == 0 )
       {
          return inputOrderNonZeroEntries(argument);
       }
-- 
2.43.0


From bd27ab6c01f5551a7287e56347263c56443aab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 10/24] fix: equations of another dimension than the
 inequalities are rejected

---
 src/input.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input.cpp b/src/input.cpp
index bfa4f5b..b3a17c3 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -235,6 +235,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       inequalities.push_back(equation);
       inequalities.push_back(-1 * equation);
    }
+   implementation::checkConsistency(inequalities, names, dimension); // equations must have the same dimension
    sort(argc, argv, inequalities);
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
-- 
2.43.0


From 2fad9f8204681aa278e0acd078be1e85269311ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 11/24] fix: known facets and vertices of another dimension are
 rejected

---
 src/input.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index b3a17c3..d6c1a50 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -172,6 +172,7 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    vertices.insert(vertices.end(), cone.cbegin(), cone.cend());
    vertices.insert(vertices.end(), conv.cbegin(), conv.cend());
    auto known_facets = knownFacets(argc, argv, names);
+   implementation::checkConsistency(conv, cone, known_facets, names, maps, dimension);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfInequalities(vertices, known_facets);
@@ -240,6 +241,10 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
    auto known_vertices = knownVertices(argc, argv);
+   if ( !known_vertices.empty() )
+   {
+      implementation::checkConsistency(known_vertices, {}, inequalities, names, maps, dimension);
+   }
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfVertices(inequalities, known_vertices);
-- 
2.43.0


From d27f435cad056c7dfd36b7b772b108df5987918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 12/24] fix: maps of another dimension than the rows are
 rejected

---
 src/input.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index d6c1a50..f17d03a 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -36,6 +36,8 @@ using namespace panda;
 namespace
 {
    void sort(int, char**, Matrix<int>&);
+   /// Throws an exception, if the maps apply to rows of another dimension.
+   void checkDimension(const Matrix<int>&, const Maps&);
    void expandInequalities(Matrix<int>&, const Maps&);
    void expandVertices(Matrix<int>&, const Maps&);
 
@@ -50,6 +52,7 @@ namespace
    Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto conv = input::implementation::verticesConvex(file);
+      checkDimension(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(conv, maps);
@@ -59,6 +62,7 @@ namespace
    Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto conv = input::implementation::verticesConvex(file);
+      checkDimension(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input vertices cannot be verified for reduced input.\n";
@@ -69,6 +73,7 @@ namespace
    Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto cone = input::implementation::verticesConical(file);
+      checkDimension(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(cone, maps);
@@ -78,6 +83,7 @@ namespace
    Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto cone = input::implementation::verticesConical(file);
+      checkDimension(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input rays cannot be verified for reduced input.\n";
@@ -88,6 +94,7 @@ namespace
    Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
    {
       const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkDimension(inequalities, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
@@ -97,6 +104,8 @@ namespace
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkDimension(inequalities, maps);
+      checkDimension(equations, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input inequalities cannot be checked for reduced input.\n";
@@ -237,6 +246,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       inequalities.push_back(-1 * equation);
    }
    implementation::checkConsistency(inequalities, names, dimension); // equations must have the same dimension
+   checkDimension(inequalities, maps);
    sort(argc, argv, inequalities);
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
@@ -439,6 +449,20 @@ namespace
       }
    }
 
+   void checkDimension(const Matrix<int>& matrix, const Maps& maps)
+   {
+      for ( const auto& row : matrix )
+      {
+         for ( const auto& map : maps )
+         {
+            if ( map.size() != row.size() )
+            {
+               throw std::invalid_argument("Invalid input data: Inconsistent dimensions (a map does not match the length of rows).");
+            }
+         }
+      }
+   }
+
    void expandInequalities(Matrix<int>& matrix, const Maps& maps)
    {
       if ( maps.empty() )
-- 
2.43.0


From 96349e8fcfb4e2cbcd9bcd7f8fa717461f4ad8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:22 +0000
Subject: [PATCH 13/24] fix: incomplete classes of reduced inequalities in the
 presence of equations

---
 src/input.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/input.cpp b/src/input.cpp
index f17d03a..348ba2e 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -38,6 +38,8 @@ namespace
    void sort(int, char**, Matrix<int>&);
    /// Throws an exception, if the maps apply to rows of another dimension.
    void checkDimension(const Matrix<int>&, const Maps&);
+   /// Returns the same equations without redundancy: the leading coordinate of an equation occurs in no other equation.
+   Equations<int> independentEquations(const Equations<int>&);
    void expandInequalities(Matrix<int>&, const Maps&);
    void expandVertices(Matrix<int>&, const Maps&);
 
@@ -114,7 +116,13 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
-      const auto tmp_maps = algorithm::normalize(maps, equations);
+      // maps and inequalities must be reduced by the same equations, otherwise the classes are incomplete.
+      const auto independent_equations = (maps.empty()) ? Equations<int>{} : independentEquations(equations);
+      for ( auto& inequality : inequalities )
+      {
+         inequality = algorithm::normalize(inequality, independent_equations);
+      }
+      const auto tmp_maps = algorithm::normalize(maps, independent_equations);
       expandInequalities(inequalities, tmp_maps);
       return inequalities;
    }
@@ -463,6 +471,20 @@ namespace
       }
    }
 
+   Equations<int> independentEquations(const Equations<int>& equations)
+   {
+      if ( equations.empty() )
+      {
+         return {};
+      }
+      const auto solutions = algorithm::extractEquations(equations);
+      if ( solutions.empty() )
+      {
+         throw std::invalid_argument("Invalid input data: The system of equations has no solution.");
+      }
+      return algorithm::extractEquations(solutions);
+   }
+
    void expandInequalities(Matrix<int>& matrix, const Maps& maps)
    {
       if ( maps.empty() )
-- 
2.43.0


From e2b2a07673ed1f1d519d28e087469448366d72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:18 +0000
Subject: [PATCH 14/24] fix: a declared dimension was ignored

The documented format is DIM=N in one line, which was not recognised as keyword.
---
 src/input_keywords.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/input_keywords.cpp b/src/input_keywords.cpp
index f686e25..149e26d 100644
--- a/src/input_keywords.cpp
+++ b/src/input_keywords.cpp
@@ -107,14 +107,11 @@ bool panda::input::implementation::isKeywordReducedConvexHull(const std::string&
 
 bool panda::input::implementation::isKeywordDimension(const std::string& string) noexcept
 {
-   return (string == "DIM" ||
-           string == "DIM=" ||
-           string == "DIMENSION" ||
-           string == "DIMENSION=" ||
-           string == "Dim" ||
-           string == "Dim=" ||
-           string == "Dimension" ||
-           string == "Dimension=");
+   const auto keyword = trimWhitespace(string.substr(0, string.find('='))); // the dimension may follow in the same line.
+   return (keyword == "DIM" ||
+           keyword == "DIMENSION" ||
+           keyword == "Dim" ||
+           keyword == "Dimension");
 }
 
 bool panda::input::implementation::isKeywordEquations(const std::string& string) noexcept
-- 
2.43.0


From 1e182cfb399eafaa270a8ff42ddbee827276e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 15/24] fix: incomplete and overlong maps are rejected

Missing images were silently empty, surplus images were read as another map, and maps without names were read in an endless loop.
---
 src/input_map.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index df841bf..bc3dc29 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -132,12 +132,21 @@ namespace
       skipWhitespace(stream);
       std::size_t index{0};
       // tokenize (read std::strings from stream before the next line break)
-      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) && index < result.size() )
+      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) )
       {
+         if ( index == result.size() )
+         {
+            throw std::invalid_argument("A map must not have more images than there are names (names must be declared before the maps).");
+         }
          std::string token;
          stream >> token;
          result[index] = image(token, names);
          ++index;
+         skipWhitespace(stream);
+      }
+      if ( index != result.size() )
+      {
+         throw std::invalid_argument("A map must have an image for every name.");
       }
       return result;
    }
-- 
2.43.0


From 9cd72a2b080f211346dbb4b8f80972f68488748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:31 +0000
Subject: [PATCH 16/24] fix: constraints were rejected if a name is the
 beginning of another name

---
 src/input_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 7262f7d..e25dd58 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -213,7 +213,7 @@ bool panda::input::containsNames(const Names& names, std::istream& stream)
          const auto character = static_cast<char>(stream.get());
          word.append(1, character);
          position = std::find_if(names.cbegin(), names.cend(), [&] (const Name& name) { return word.size() <= name.size() && name.substr(0, word.size()) == word; });
-         if ( position != names.cend() && *position == word ) // match!
+         if ( std::find(names.cbegin(), names.cend(), word) != names.cend() ) // match!
          {
             return true;
          }
-- 
2.43.0


From 636454732b1c3d50b89dccd3e1e6ab63b3fe2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 17/24] fix: the thread adding known vertices used equations
 which no longer exist

---
 src/method_adjacency_decomposition_implementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index f5ff76e..ae13905 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -167,9 +167,9 @@ namespace
    }
 
    template <typename Integer>
-   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>&)
+   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>& equations)
    {
-      return initializationOnMaster(manager, matrix, maps, known_output, {}, "Vertices / Rays");
+      return initializationOnMaster(manager, matrix, maps, known_output, equations, "Vertices / Rays");
    }
 
    template <typename Integer, typename TagType>
-- 
2.43.0


From c27c20ed6787db39e867390a069e14a1ebc1ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 18/24] fix: the end was added to the shared list before the
 list was locked

---
 src/list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.cpp b/src/list.cpp
index 9b36891..bd689d2 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -85,8 +85,8 @@ Row<Integer> panda::List<Integer, TagType>::get() const
 {
    if ( empty() ) // abort
    {
-      const auto it = rows.insert(Row<Integer>{}).first;
       std::unique_lock<std::mutex> lock(mutex);
+      const auto it = rows.insert(Row<Integer>{}).first;
       iterators.push_back(it);
       condition.notify_all();
    }
-- 
2.43.0


From 1379e04e238d943166573294b582ac9b6eb5e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 19/24] fix: a malformed coordinate silently ended the list of
 vertices

The rest of the section was dropped when a token was not an integer or not
in the range of int, for rays the reader did not even come to an end; a
missing denominator was taken from the next line.
---
 src/input_vertex.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 0fe3c01..ce64838 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -112,7 +112,10 @@ namespace
    using namespace input;
    Row<int> vertex(std::istream& stream)
    {
-      skipWhitespace(stream);
+      if ( (stream >> std::ws).peek() == std::istream::traits_type::eof() )
+      {
+         return Row<int>{}; // nothing left to read, the stream is in a failed state.
+      }
       const auto id = isIdentifier(stream) ? identifier(stream) : "";
       skipWhitespace(stream);
       Row<int> numerator;
@@ -124,7 +127,11 @@ namespace
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            stream >> tmp;
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || !(stream >> tmp) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Denominator is not an integer", id);
+            }
             if ( tmp == 0 )
             {
                errorWithLineInformation<std::invalid_argument>("Division by zero", id);
@@ -136,11 +143,15 @@ namespace
             denominator.push_back(1);
          }
          skipWhitespace(stream);
-         if ( stream.peek() == '\n' )
+         if ( isEndOfLine(stream) || isEndOfFile(stream) )
          {
             break;
          }
       }
+      if ( !stream )
+      {
+         errorWithLineInformation<std::invalid_argument>("Coordinate is not an integer", id);
+      }
       assert( numerator.size() == denominator.size() );
       if ( numerator.empty() )
       {
-- 
2.43.0


From b4797084f79548bc7addefa33d71731deba51583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:59 +0000
Subject: [PATCH 20/24] fix: malformed factors, signs and right hand sides of
 constraints were misread

---
 src/input_common.cpp                     |  2 +-
 src/input_constraint_named_variables.cpp | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index e25dd58..2ba55ea 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -245,7 +245,7 @@ int panda::input::toInt(const std::string& string)
    }
    std::istringstream stream(string);
    int result;
-   if ( !(stream >> result) )
+   if ( !(stream >> result) || stream.peek() != std::istringstream::traits_type::eof() )
    {
       throw std::invalid_argument("toInt: Argument is not an integer.");
    }
diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 7992977..cd14f0f 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -51,6 +51,10 @@ namespace
       const auto factor = toInt(token.substr(0, end_of_factor));
       if ( end_of_factor == std::string::npos ) // this is the RHS (because there is no name).
       {
+         if ( token.find_first_of("0123456789") == std::string::npos )
+         {
+            errorWithLineInformation<std::invalid_argument>("Token \"" + token + "\" is neither an integer nor a variable", id);
+         }
          // c.f. algorithm_inequality_operations.tpp: the rhs is stored negated.
          return std::make_pair(names.size(), -factor);
       }
@@ -103,9 +107,14 @@ namespace
          if ( token == "+" || token == "-" )
          {
             bool is_plus = token == "+";
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || isEndOfFile(stream) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Sign without a term", id);
+            }
             stream >> token;
             std::tie(index, coefficient) = term(token, names, id);
-            if ( coefficient < 0 )
+            if ( (index + 1 < ieq.size()) ? (coefficient < 0) : (coefficient > 0) ) // the rhs is stored negated.
             {
                errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
             }
-- 
2.43.0


From 471c8831dbd995a30f2203e0564c3b42629d0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 21/24] fix: variables on the right hand side were read as if
 they were on the left

---
 src/input_constraint_named_variables.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index cd14f0f..d8aeb1c 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -132,7 +132,7 @@ namespace
             errorWithLineInformation<std::invalid_argument>("Multiple terms for variable \"" + names[index] + "\"", id);
          }
          ieq[index] = coefficient;
-         if ( has_rhs )
+         if ( has_rhs || (relation != RelationOperator::Undecided && index + 1 < ieq.size()) )
          {
             const std::string message = ( index + 1 < ieq.size() )
                                         ? "No variables are allowed on the right hand side"
-- 
2.43.0


From 953dddce5854727abb2d35c3900a97c1e2d67cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:14 +0000
Subject: [PATCH 22/24] fix: entries that do not fit the target type were
 silently truncated

---
 src/cast.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cast.cpp b/src/cast.cpp
index e8df187..1f64eae 100644
--- a/src/cast.cpp
+++ b/src/cast.cpp
@@ -9,6 +9,7 @@
 #undef COMPILE_TEMPLATE_CAST
 
 #include <cstddef>
+#include <stdexcept>
 
 using namespace panda;
 
@@ -32,6 +33,10 @@ Row<Integer> panda::cast(const Row<OriginalType>& input)
    for ( const auto& element : input )
    {
       output.push_back(Integer(element));
+      if ( OriginalType(output.back()) != element )
+      {
+         throw std::range_error("Number doesn't fit into the integer type.");
+      }
    }
    return output;
 }
-- 
2.43.0


From 5d250b3778def051e5ab0e74edac29fb2707e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:14 +0000
Subject: [PATCH 23/24] fix: fixed size integer types were refused where
 cassert does not define the limits

---
 src/integer_type_detection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integer_type_detection.cpp b/src/integer_type_detection.cpp
index 2537363..24b2bca 100644
--- a/src/integer_type_detection.cpp
+++ b/src/integer_type_detection.cpp
@@ -7,6 +7,7 @@
 #include "integer_type_detection.h"
 
 #include <cassert>
+#include <cstdint>
 #include <cstring>
 #include <stdexcept>
 #include <string>
-- 
2.43.0


From 7b99f0c73c22c9807a2756115c4f4cfc305f4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:14 +0000
Subject: [PATCH 24/24] fix: the file name behind an option of the form
 -s=<arg> was ignored

---
 src/input_detection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index 76a38dc..890ce13 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -126,7 +126,8 @@ namespace
 {
    bool requiresParameter(char* argument) noexcept
    {
-      return (std::strcmp(argument, "-c") != 0 && // --check
+      return (std::strchr(argument, '=') == nullptr && // "-s=<arg>": the parameter is part of the argument.
+              std::strcmp(argument, "-c") != 0 && // --check
               std::strcmp(argument, "-f") != 0);  // --filter
    }
 
-- 
2.43.0

