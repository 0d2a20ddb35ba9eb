From 6fdfe40ceeb36f4db897e228c272fd2f85a1049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:02 +0000
Subject: [PATCH 01/63] fix: derivatives of asin and acos have the wrong sign

---
 src/UnaryExpression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index 3b09b3a..8fcb37a 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -85,8 +85,8 @@ Expression Sin::d()  const { return   fcn::cos(arg()) ; }
 
 Expression Tan::d()  const { return 1. / ( fcn::cos(arg()) * fcn::cos(arg()) );}
 
-Expression ACos::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ); }
-Expression ASin::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ) ; }
+Expression ACos::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ); }
+Expression ASin::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ) ; }
 Expression ATan::d() const { return 1 / ( 1 + arg()*arg() ); }
 
 Expression ISqrt::d() const { return -1./ ( 2 * Pow( arg() , 1.5 ) ); }
-- 
2.43.0


From 40ab215b4183f3530d7789c8f2876b0f348d9929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:02 +0000
Subject: [PATCH 02/63] fix: in-situ evaluation of LGamma disagrees with the
 emitted source for negative arguments

---
 src/UnaryExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index 8fcb37a..754adc4 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -32,7 +32,7 @@ DEFINE_UNARY_OPERATOR_NO_RESOLVER( Abs , std::abs )
 
 LGamma::LGamma( const Expression& expression) : IUnaryExpression(expression) {} 
 LGamma::operator Expression() const { return Expression( std::make_shared<LGamma>(*this) ) ; }
-complex_t LGamma::operator()() const { return std::lgamma( std::abs( m_expression() ) ); }
+complex_t LGamma::operator()() const { return std::lgamma( std::real( m_expression() ) ); }
 std::string LGamma::to_string(const ASTResolver* resolver) const {   
   return "std::lgamma(" + m_expression.to_string(resolver) + ")"; 
 }
-- 
2.43.0


From 559ac0196c830312240f5058d4658c2ade99d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:02 +0000
Subject: [PATCH 03/63] fix: in-situ evaluation of Fmod always returns zero

---
 src/BinaryExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinaryExpression.cpp b/src/BinaryExpression.cpp
index 5fee9f1..e41dcf0 100644
--- a/src/BinaryExpression.cpp
+++ b/src/BinaryExpression.cpp
@@ -37,7 +37,7 @@ complex_t LessThan::operator()()    const { return complex_t(std::real(lval()) <
 complex_t GreaterThanEqualTo::operator()() const { return complex_t(std::real(lval()) >= std::real(rval()) ,0); }
 complex_t LessThanEqualTo::operator()()    const { return complex_t(std::real(lval()) <= std::real(rval()) ,0); }
 complex_t Pow::operator()()         const { return pow( lval(), rval() ); }
-complex_t Fmod::operator()()        const { return 0; }
+complex_t Fmod::operator()()        const { return std::fmod( std::real(lval()), std::real(rval()) ); }
 complex_t Equal::operator()()       const { return lval() == rval() ; } 
 complex_t Or::operator()()          const { return std::real(lval()) || std::real(rval()) ; }
 complex_t ATan2::operator()()       const { return atan2( std::real(lval() ), std::real(rval() ) ); }
-- 
2.43.0


From 328ad47a435dfdae67e72a98ed44a117d2e60696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:02 +0000
Subject: [PATCH 04/63] fix: constants lose precision when emitted to source

---
 src/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index aa11146..a9ec469 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -55,7 +55,7 @@ bool isZero( const complex_t& A ){
 
 std::string Constant::to_string(const ASTResolver* resolver) const {  
   auto rounded_string = [](const double& val ){
-    std::string str = mysprintf("%g", val);
+    std::string str = mysprintf("%.17g", val);
     return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
   };
   std::string complex_type = type_string<complex_t>();
-- 
2.43.0


From 02fb13b034dc0df9157eb43d223cd3180a56da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:02 +0000
Subject: [PATCH 05/63] fix: compile-time constants lose precision and brackets
 when emitted to source

---
 src/ASTResolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASTResolver.cpp b/src/ASTResolver.cpp
index 7dcdfc0..5a06a06 100644
--- a/src/ASTResolver.cpp
+++ b/src/ASTResolver.cpp
@@ -113,7 +113,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     auto it = m_mps->find(parameter.name());
     if( it != nullptr ){
       if( m_enable_compileTimeConstants && it->flag() == Flag::CompileTimeConstant ){
-        addResolvedParameter( &parameter, "("+std::to_string(it->mean()) +")" );
+        addResolvedParameter( &parameter, mysprintf("(%.17g)", it->mean()) );
       }
       else addResolvedParameter( &parameter, addCacheFunction<ParameterTransfer>( parameter.name(), it )  );
       return;
@@ -121,7 +121,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     DEBUG("Could not find parameter: " << parameter.name() << " amongst the MPS ");
   }
   else if( m_enable_compileTimeConstants ){
-    addResolvedParameter( &parameter, std::to_string( parameter.defaultValue() ) );
+    addResolvedParameter( &parameter, mysprintf("(%.17g)", parameter.defaultValue()) );
     return;
   }
   auto address = addCacheFunction<CacheTransfer>( parameter.name(), parameter.defaultValue() );
-- 
2.43.0


From aaeea7c2287150566c1dad26118f57cc7d3615fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:19 +0000
Subject: [PATCH 06/63] fix: normal ordering drops factors that are binary
 operators other than products and quotients

---
 src/Simplify.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Simplify.cpp b/src/Simplify.cpp
index b39c5b6..4e4b5cc 100644
--- a/src/Simplify.cpp
+++ b/src/Simplify.cpp
@@ -20,12 +20,13 @@ void NormalOrderedExpression::Term::addExpression( const Expression& expression)
       addExpression(l);
       addExpression(r);
     }
-    if( is<Sum>(expression) || is<Sub>(expression) ) 
+    else if( is<Sum>(expression) || is<Sub>(expression) ) 
       ERROR("I never should get here, brackets should be pre-expanded [" << expression << "] " );
-    if( is<Divide>(expression) ){
+    else if( is<Divide>(expression) ){
       addExpression( l );
       m_divisor = m_divisor * r ;  
     }
+    else m_terms.emplace_back( expression, expression.to_string() );
   }
   else if( is<Constant>(expression) ) m_prefactor *= expression();
   else m_terms.emplace_back( expression, expression.to_string() );
-- 
2.43.0


From d2f753a8e87c2c119d3eabe9c6e1f1b99f82a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:01 +0000
Subject: [PATCH 07/63] fix: dependencies of the arguments of a Function node
 are not resolved

---
 src/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index a9ec469..ec085e0 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -245,7 +245,7 @@ std::string Function::to_string(const ASTResolver* resolver) const {
   for( auto& arg : m_args ) rt += arg.to_string(resolver) + ", ";
   return rt.substr(0,rt.size()-2) + ")";
 }
-void Function::resolve( ASTResolver& resolver ) const {}
+void Function::resolve( ASTResolver& resolver ) const { for( auto& arg : m_args ) arg.resolve( resolver ); }
 
 std::string SubTree::to_string(const ASTResolver* /*resolver*/) const 
 {
-- 
2.43.0


From 74b8d2997a66a9e7bd2898263959009a04d9bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:59 +0000
Subject: [PATCH 08/63] fix: parameter values lose precision when compiled into
 a function

---
 src/CompiledExpressionBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index fd4ed52..7dedb1f 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -229,6 +229,6 @@ void CompiledExpressionBase::compileWithParameters( std::ostream& stream ) const
   tl.erase(tl.begin() + ( use_rto() ? 2 : 0 ) ); 
   stream << "extern \"C\" " << returnTypename() << " " << progName() << "_wParams" << "(" << fcnSignature(tl) << " ){" << std::endl;
   auto buf = externBuffer(); 
-  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return std::to_string(line); }) ) <<"};\n" ;
+  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return mysprintf("%.17g", line); }) ) <<"};\n" ;
   stream << "  return " << progName() << "( externalParameters, x0 ); \n}\n";
 }
-- 
2.43.0


From b6f19b8138e07581f2c8b9172c84ea6aed9fb116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:10 +0000
Subject: [PATCH 09/63] fix: function-valued expressions of the same type are
 indistinguishable by name

---
 AmpGen/Expression.h | 4 +++-
 src/Expression.cpp  | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Expression.h b/AmpGen/Expression.h
index 8ee7101..560b4c3 100644
--- a/AmpGen/Expression.h
+++ b/AmpGen/Expression.h
@@ -214,13 +214,15 @@ namespace AmpGen
   class LambdaExpression : public IExpression {
     public: 
       template <typename function_type>
-      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>()) {}
+      LambdaExpression( const function_type& function) : m_function(function), m_name(uniqueName(type_string<function_type>())) {}
       std::string to_string(const ASTResolver* resolver = nullptr) const override; 
       void resolve( ASTResolver& resolver) const override;
       operator Expression() const; 
       complex_t operator()() const override; 
       std::function<double(void)> m_function; 
       std::string m_name; 
+    private:
+      static std::string uniqueName( const std::string& type ); 
   }; 
 
   /** @ingroup ExpressionEngine class Ternary 
diff --git a/src/Expression.cpp b/src/Expression.cpp
index ec085e0..8fc4ae7 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -1,4 +1,5 @@
 #include <memory.h>
+#include <atomic>
 #include <cmath>
 #include <complex>
 #include <iosfwd>
@@ -347,6 +348,13 @@ complex_t ComplexParameter::operator()() const
   return m_real() + 1i * m_imag();
 }
 
+std::string LambdaExpression::uniqueName( const std::string& type )
+{
+  /// the name identifies the function, and so cannot only depend on the type
+  static std::atomic<unsigned> counter = {0};
+  return type + "_" + std::to_string(counter++);
+}
+
 std::string LambdaExpression::to_string(const ASTResolver* resolver) const 
 {
   return resolver == nullptr ?programatic_name(m_name) : resolver->resolvedParameter(this);
-- 
2.43.0


From 786b24eb28f72205f21eb259467d89e293b1dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:40 +0000
Subject: [PATCH 10/63] fix: the wrapper with built-in parameters drops the
 output arguments of array-valued functions

---
 src/CompiledExpressionBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index 7dedb1f..aedd9fe 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -230,5 +230,5 @@ void CompiledExpressionBase::compileWithParameters( std::ostream& stream ) const
   stream << "extern \"C\" " << returnTypename() << " " << progName() << "_wParams" << "(" << fcnSignature(tl) << " ){" << std::endl;
   auto buf = externBuffer(); 
   stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return mysprintf("%.17g", line); }) ) <<"};\n" ;
-  stream << "  return " << progName() << "( externalParameters, x0 ); \n}\n";
+  stream << "  return " << progName() << "( " << ( use_rto() ? "r, s, " : "" ) << "externalParameters, x0 ); \n}\n";
 }
-- 
2.43.0


From 31e8c62550c87a7d500a1adf31f951a2e5c21c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:24 +0000
Subject: [PATCH 11/63] fix: a library that fails to load is treated as loaded

---
 AmpGen/CompiledExpression.h |  7 ++++++-
 AmpGen/DynamicFCN.h         | 10 ++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/AmpGen/CompiledExpression.h b/AmpGen/CompiledExpression.h
index 90919ef..06b2b0a 100644
--- a/AmpGen/CompiledExpression.h
+++ b/AmpGen/CompiledExpression.h
@@ -191,7 +191,12 @@ namespace AmpGen
         }
         bool link( const std::string& handle ) override
         {
-          return link( dlopen( handle.c_str(), RTLD_NOW ) );
+          void* lib = dlopen( handle.c_str(), RTLD_NOW );
+          if( lib == nullptr ){
+            ERROR( "Failed to load: " << handle << " error: " << dlerror() );
+            return false;
+          }
+          return link( lib );
         };
         std::string arg_type(const unsigned& i ) const override
         {
diff --git a/AmpGen/DynamicFCN.h b/AmpGen/DynamicFCN.h
index a593850..8b524b5 100644
--- a/AmpGen/DynamicFCN.h
+++ b/AmpGen/DynamicFCN.h
@@ -40,10 +40,7 @@ namespace AmpGen
 
   public:
     DynamicFCN() = default; 
-    DynamicFCN( const std::string& lib, const std::string& name ) : 
-      m_handle(std::make_shared<LibHandle>(dlopen( lib.c_str(), RTLD_NOW ))) {
-      set(*m_handle,name);
-    }
+    DynamicFCN( const std::string& lib, const std::string& name ) { set(lib, name); }
     DynamicFCN( void* handle, const std::string& name ) : m_handle(std::make_shared<LibHandle>(handle)) { set( handle, name ); }
     ~DynamicFCN(){ }
 
@@ -51,8 +48,9 @@ namespace AmpGen
     {
       DEBUG("Linking handle: " << lib << ":" << name );
       m_handle = std::make_shared<LibHandle>( dlopen( lib.c_str(), RTLD_NOW ) );
-      if( !m_handle ){
-        DEBUG( dlerror() );
+      if( m_handle->handle == nullptr ){
+        ERROR( "Failed to load: " << lib << " error: " << dlerror() );
+        m_fcn = nullptr;
         return false;
       }
       return set(*m_handle,name);
-- 
2.43.0


From b49c928279283c559549bea6d5ebccaf5302222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:07 +0000
Subject: [PATCH 12/63] fix: a failed compilation of generated source goes
 unnoticed

---
 AmpGen/CompilerWrapper.h |  2 +-
 src/CompilerWrapper.cpp  | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/AmpGen/CompilerWrapper.h b/AmpGen/CompilerWrapper.h
index 211cf4e..6a3cd00 100644
--- a/AmpGen/CompilerWrapper.h
+++ b/AmpGen/CompilerWrapper.h
@@ -22,7 +22,7 @@ namespace AmpGen
     bool compile( std::vector<CompiledExpressionBase*>& expression, 
                   const std::string& fname="",
                   const std::map<std::string, std::string>& metadata_functions = {} ); 
-    void compileSource(const std::string& fname, const std::string& oname );
+    bool compileSource(const std::string& fname, const std::string& oname );
     void setVerbose() { m_verbose = true ; } 
     void preamble(std::ostream& os ) const ; 
     void addHeader(const std::string& include ) { m_includes.push_back(include); } 
diff --git a/src/CompilerWrapper.cpp b/src/CompilerWrapper.cpp
index 216051c..da11d70 100644
--- a/src/CompilerWrapper.cpp
+++ b/src/CompilerWrapper.cpp
@@ -97,8 +97,7 @@ bool CompilerWrapper::compile( CompiledExpressionBase& expression, const std::st
   if( print_all ) INFO("Generating source: " << cname );
   auto twall_begin  = std::chrono::high_resolution_clock::now();
   generateSource( expression, cname );
-  compileSource(cname, oname);
-  expression.link( oname );
+  if( !compileSource(cname, oname) || !expression.link( oname ) ) FATAL("Failed to compile: " << expression.name() << " from " << cname );
   auto twall_end  = std::chrono::high_resolution_clock::now();
   double tWall    = std::chrono::duration<double, std::milli>( twall_end - twall_begin ).count();
   if( print_all ) INFO( expression.name() << " " << cname << " Compile time = " << tWall / 1000. << " [size = " << fileSize(cname)/1024 << ", " << fileSize(oname)/1024 << "] kB" );
@@ -122,10 +121,11 @@ bool CompilerWrapper::compile( std::vector<CompiledExpressionBase*>& expressions
   for ( const auto& [k,v] : metadata_functions ) output << "extern \"C\" const char* " << k << "(){ return \"" << v << "\";}\n"; 
 
   output.close();
-  compileSource( cname, oname );
+  if( !compileSource( cname, oname ) ) FATAL("Failed to compile: " << cname );
   
-  
-  for( auto& expression : expressions ) expression->link( oname );
+  for( auto& expression : expressions ){
+    if( !expression->link( oname ) ) FATAL("Failed to link: " << expression->name() << " from " << oname );
+  }
   auto twall_end  = std::chrono::high_resolution_clock::now();
   double tWall    = std::chrono::duration<double, std::milli>( twall_end - twall_begin ).count();
   if( print_all ) INFO( cname << " Compile time = " << tWall / 1000. << " [size = " << fileSize(cname)/1024 << ", " << fileSize(oname)/1024 << "] kB" );
@@ -145,7 +145,7 @@ std::string get_cpp_version()
   else return "";
 }
 
-void CompilerWrapper::compileSource( const std::string& fname, const std::string& oname )
+bool CompilerWrapper::compileSource( const std::string& fname, const std::string& oname )
 {
   using namespace std::chrono_literals;
   std::vector<std::string> compile_flags = NamedParameter<std::string>("CompilerWrapper::Flags", {"-Ofast", "--std="+get_cpp_version()}); 
@@ -195,10 +195,10 @@ void CompilerWrapper::compileSource( const std::string& fname, const std::string
   {
     execv( argp[0], const_cast<char**>( &argp[0] ) );
     perror( "execv() in ../src/CompilerWrapper.cpp" ); // add "CompilerWrapper::Verbose true" to .opt file to diagnose
-    exit( 0 );
+    _exit( 127 );
   }
   int status = 0;   
-  waitpid( childPID, &status, 0 );
+  return childPID != -1 && waitpid( childPID, &status, 0 ) == childPID && WIFEXITED(status) && WEXITSTATUS(status) == 0;
 }
 
 void CompilerWrapper::preamble( std::ostream& os ) const 
-- 
2.43.0


From c5643bc1b019f68d84534c45054d17ffb7c8b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:32 +0000
Subject: [PATCH 13/63] fix: normalise the L=4 Blatt-Weisskopf barrier at z0

---
 src/Lineshapes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes.cpp b/src/Lineshapes.cpp
index 7406c7d..6f99a01 100644
--- a/src/Lineshapes.cpp
+++ b/src/Lineshapes.cpp
@@ -32,7 +32,7 @@ Expression AmpGen::BlattWeisskopf_Norm( const Expression& ze, const Expression&
     case 1: return (1+z0) / (1+z);
     case 2: return (z0*z0 + 3*z0 + 9 ) / (z*z + 3*z + 9);
     case 3: return (z0*fpow(z0-15,2) + 9*fpow( 2*z0 -5,2 ) ) / (z*fpow(z-15,2) + 9*fpow( 2*z -5,2 ) );
-    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z*fpow(2*z-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
+    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z0*fpow(2*z0-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
     default : 
       ERROR("Barrier factors not for implemented for L>4");
       return 0;
-- 
2.43.0


From 94d98cf2b60ed70c64c23d0161428e4474c6e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:32 +0000
Subject: [PATCH 14/63] fix: L=2 barrier factor used in the dispersive phase
 space

---
 src/Lineshapes/CoupledChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes/CoupledChannel.cpp b/src/Lineshapes/CoupledChannel.cpp
index a052762..bc63708 100644
--- a/src/Lineshapes/CoupledChannel.cpp
+++ b/src/Lineshapes/CoupledChannel.cpp
@@ -100,7 +100,7 @@ namespace {
   {
     if constexpr( L == 0 )      return expression_type(1);
     else if constexpr( L == 1 ) return expression_type( 2 * z / ( 1 + z )  ); 
-    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z * 9 ) ); 
+    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z + 9 ) ); 
     else if constexpr( L == 3 ) return expression_type( 277  * z * z * z  / (z*(z-15)*(z-15) + 9* ( 2 * z - 5 ) * (2*z-5 ) ) );  
     else {
       std::cout << "error, blatt weisskopf not implemented for L> 3 (if you are trying to calculate dispersive corrections in such a case, good luck to ya" << std::endl; 
-- 
2.43.0


From df8989131d8c1ca6ff0703a2108c6f81fba421ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:01 +0000
Subject: [PATCH 15/63] fix: the non-resonant production term of the generic
 K-matrix is counted once per pole

---
 src/Lineshapes/GenericKmatrix.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Lineshapes/GenericKmatrix.cpp b/src/Lineshapes/GenericKmatrix.cpp
index 08f0391..5bea14c 100644
--- a/src/Lineshapes/GenericKmatrix.cpp
+++ b/src/Lineshapes/GenericKmatrix.cpp
@@ -130,12 +130,11 @@ DEFINE_GENERIC_SHAPE(GenericKmatrix)
     for(unsigned k = 0 ; k < nChannels; ++k){
       for(unsigned alpha = 0; alpha < nPoles; ++alpha){
         Expression beta = 0;
-        for(unsigned q = 0 ; q < nChannels; ++q){
-          beta += a[q] * poleConfigs[alpha].couplings[q];
-          phi[k] += a[q] * non_resonant[{k,q}];
-        }
-        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s) + phi[k] * (1.+s_0)/(s-s_0);
+        for(unsigned q = 0 ; q < nChannels; ++q) beta += a[q] * poleConfigs[alpha].couplings[q];
+        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s);
       }
+      for(unsigned q = 0 ; q < nChannels; ++q) phi[k] += a[q] * non_resonant[{k,q}];
+      P[k] += phi[k] * (1.+s_0)/(s-s_0);
       F_0 += propagator[{0,k}] * P[k];
     }
     //TODO: implement higher orbital angular momentum
-- 
2.43.0


From fb7dad1fe3cf909a7d74a2e9d93e3d953a6cdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:47 +0000
Subject: [PATCH 16/63] fix: give an empty TransformSequence the two-by-two
 identity in the spinor representation

---
 src/Transform.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Transform.cpp b/src/Transform.cpp
index 812a6be..44878f0 100644
--- a/src/Transform.cpp
+++ b/src/Transform.cpp
@@ -114,8 +114,7 @@ void TransformSequence::buildCache()
   for( auto repr : { Transform::Representation::Spinor, Transform::Representation::Bispinor, Transform::Representation::Vector } )
   {
    if( m_transforms.size() == 0 ){
-     if( repr == Transform::Representation::Spinor ) m_cache[repr] = Identity(2);
-     m_cache[repr] = Identity(4);
+     m_cache[repr] = Identity( repr == Transform::Representation::Spinor ? 2 : 4 );
    }
    else { 
     Tensor::Index a,b,c;
-- 
2.43.0


From 95089b6e0c16fc527a5d63c1a66ac08b56a77de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:27 +0000
Subject: [PATCH 17/63] fix: vertices with a scalar daughter drop the current
 of the scalar

---
 src/FermionVertices.cpp | 12 ++++++------
 src/Vertex.cpp          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index e6b25cf..8c2a3a9 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -28,7 +28,7 @@ DEFINE_VERTEX( f_fS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -140,7 +140,7 @@ DEFINE_VERTEX( r_fS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -153,7 +153,7 @@ DEFINE_VERTEX( r_fS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
@@ -204,7 +204,7 @@ DEFINE_VERTEX( F_FS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -316,7 +316,7 @@ DEFINE_VERTEX( R_FS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hbProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -329,7 +329,7 @@ DEFINE_VERTEX( R_FS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index e6ce10f..b1f09a0 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -295,7 +295,7 @@ DEFINE_VERTEX( V_TS_D )
 {
   Tensor L        = ( -1 ) * Orbital_PWave( P, Q );
   Tensor coupling = LeviCivita()( -mu, -nu, -alpha, -beta ) * P( nu ) * Q( alpha );
-  return coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha );
+  return ( coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha ) ) * V2[0];
 }
 
 DEFINE_VERTEX( S_fF_S ) { return Bar(V2)(a) * V1(a); }
-- 
2.43.0


From 0c21641e29b30197eeae4d8ef75a9487c9998515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:27 +0000
Subject: [PATCH 18/63] fix: chiral fermion-scalar vertices act on the scalar
 instead of the fermion

---
 src/FermionVertices.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 8c2a3a9..d54dd7d 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -84,14 +84,14 @@ DEFINE_VERTEX( f_Vf_SR )
 DEFINE_VERTEX( f_fS_SL )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( f_fS_SR )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( f_fS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
@@ -260,14 +260,14 @@ DEFINE_VERTEX( F_VF_SR )
 DEFINE_VERTEX( F_FS_SL )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( F_FS_SR )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
-- 
2.43.0


From 3ba7153ce519266be79971cb08eab37b8cbfb62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:27 +0000
Subject: [PATCH 19/63] fix: two antifermion vertices project onto the fermion
 state

---
 src/FermionVertices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index d54dd7d..fd08f5c 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -270,7 +270,7 @@ DEFINE_VERTEX( F_FS_SR )
   return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
-DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
+DEFINE_VERTEX( F_FS_S1 ){ return Spin1hbProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
 
 DEFINE_VERTEX( F_FS_P1 )
 {
@@ -304,7 +304,7 @@ DEFINE_VERTEX( F_VF_P3 ) //A5
 
 DEFINE_VERTEX( F_VF_D1 )
 {
-  Tensor proj   = Spin1hProjector(P);
+  Tensor proj   = Spin1hbProjector(P);
   Tensor gt     = gamma_twiddle(P);
   Tensor L      = Orbital_DWave(P,Q)(-mu,-nu) * V1(nu); 
   return proj( a, b ) * gt(mu,b,c) * L(-mu) * V2(c) ;
-- 
2.43.0


From f8eb23e17f871780812d0d30448440835ca3fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:32 +0000
Subject: [PATCH 20/63] fix: half-integer spin is printed as 2J/2

---
 src/ParticleProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index 4558301..d0fd652 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -53,7 +53,7 @@ std::string ParticleProperties::J() const
 {
   if( m_twoSpin == -1 ) return "?";
   if( m_twoSpin % 2 == 0 ) return std::to_string( int(m_twoSpin/2) );
-  if( m_twoSpin % 2 == 1 ) return std::to_string( int(m_twoSpin/2) ) + "/2";
+  if( m_twoSpin % 2 == 1 ) return std::to_string( m_twoSpin ) + "/2";
   return "";
 }
 
-- 
2.43.0


From 3a31316d5b165850ddc04a7a7a80d9ff1988461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:32 +0000
Subject: [PATCH 21/63] fix: particles defined by the user have a definite
 antiparticle format, status and validity

---
 AmpGen/ParticleProperties.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AmpGen/ParticleProperties.h b/AmpGen/ParticleProperties.h
index 9e1a9ad..6746c10 100644
--- a/AmpGen/ParticleProperties.h
+++ b/AmpGen/ParticleProperties.h
@@ -98,10 +98,10 @@ namespace AmpGen
       std::string m_name{""};            ///< particle name
       std::string m_texName{""};         ///< latex label of particle
       std::string m_chargeString{""};    ///< string for particle charge
-      char m_Aformat;                    ///< anti-particle format character
-      char m_status;                     ///< status (estalished or not etc)
+      char m_Aformat{' '};                   ///< anti-particle format character
+      char m_status{' '};                    ///< status (estalished or not etc)
       QuarkContent m_quarkContent;       ///< The quark content of the state (uD, uud etc.)
-      bool m_isValid;                    ///< Flag to check whether the ParticleProperties have configured correctly 
+      bool m_isValid{false};                   ///< Flag to check whether the ParticleProperties have configured correctly 
       bool m_customName = {false};       ///< Flag to make custom name 
       void antiQuarks();
       void antiCharge();
-- 
2.43.0


From d3b38fa7521bba5f03bf0ba63c96d255eefcf6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:50 +0000
Subject: [PATCH 22/63] fix: decays with a daughter that does not match do not
 match

---
 src/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index e6e71b7..8f07cbc 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -864,7 +864,7 @@ unsigned int Particle::matches( const Particle& other ) const
   for( unsigned int i = 0 ; i < daughters().size(); ++i )
   {
     auto daughter_match = daughters()[i]->matches( *other.daughters()[i] );
-    if( daughter_match == 0 ) return MatchState::None;
+    if( daughter_match & MatchState::None ) return MatchState::None;
     rt |= daughter_match;
   }
   if( m_orbital  != other.L() )        rt |= MatchState::DifferentOrbital;
-- 
2.43.0


From f6464f69045630f907a6a8b0d77fd4b9229eb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:50 +0000
Subject: [PATCH 23/63] fix: the descriptor of a decay with a named vertex
 keeps its orbital angular momentum

---
 src/Particle.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 8f07cbc..37229ad 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -279,18 +279,23 @@ std::shared_ptr<Particle> Particle::daughter( const std::string& name, const int
 }
 
 
-std::string Particle::orbitalString() const
+static std::string couplingString( const unsigned int& orbital, const unsigned int& spinConfigurationNumber )
 {
-  if( m_vertexName != "" ) return m_vertexName; 
   constexpr std::array<char, 7> orbitals = {'S','P','D','F','G','H','I'};
-  std::string rt = std::string(1, orbitals[m_orbital] ); 
-  if( m_spinConfigurationNumber != 0 ){ 
-    if( m_spinConfigurationNumber < 10 ) rt += std::to_string( m_spinConfigurationNumber  );
-    else rt += char(m_spinConfigurationNumber-10);
+  std::string rt = std::string(1, orbitals[orbital] ); 
+  if( spinConfigurationNumber != 0 ){ 
+    if( spinConfigurationNumber < 10 ) rt += std::to_string( spinConfigurationNumber  );
+    else rt += char(spinConfigurationNumber-10);
   }
   return rt; 
 }
 
+std::string Particle::orbitalString() const
+{
+  if( m_vertexName != "" ) return m_vertexName; 
+  return couplingString( m_orbital, m_spinConfigurationNumber );
+}
+
 bool Particle::hasModifier( const std::string& modifier ) const
 {
   return std::find( m_modifiers.begin(), m_modifiers.end(), modifier ) != m_modifiers.end();
@@ -302,7 +307,7 @@ std::string Particle::modifierString() const
   auto append = [&modString](const std::string& toAppend){ 
     modString += ( modString == "[" ? toAppend : ";" +toAppend );
   };
-  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( orbitalString() );
+  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( couplingString( m_orbital, m_spinConfigurationNumber ) );
   if ( !m_usesDefaultLineshape ) append( m_lineshape );
   std::vector<std::string> otherModifiers = {"BgSpin0", "Inco", "NoSym"};
   for ( auto& mod : otherModifiers ) if ( hasModifier( mod ) ) append(mod) ;
-- 
2.43.0


From 187e2d558842dbc7b3e179b94644b5fc58de425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:03 +0000
Subject: [PATCH 24/63] fix: an even permutation of identical fermions does not
 change sign

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1b1948a..20d5d9b 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -508,7 +508,7 @@ std::pair<size_t,int> AmpGen::minSwaps(const std::vector<size_t>& indices, const
       cycle_size++; 
     } 
     if( cycle_size > 0 ){
-      netExchangeParity *= exchangeParities[i]; 
+      if( cycle_size % 2 == 0 ) netExchangeParity *= exchangeParities[i]; 
       ans += (cycle_size - 1); 
     }
   } 
-- 
2.43.0


From 5338807094cadb40f12532788e0bfe9e307bd0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:03 +0000
Subject: [PATCH 25/63] fix: decays that conserve quark flavour are not weak

---
 src/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 37229ad..703087d 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -778,7 +778,7 @@ std::string Particle::topologicalString() const
 
 const ParticleProperties* Particle::props() const { return m_props; }
 bool Particle::isHead() const { return m_parent == nullptr; }
-bool Particle::isWeakDecay() const { return m_name.find("NonRes") == std::string::npos or quarks() != daughterQuarks(); }
+bool Particle::isWeakDecay() const { return m_name.find("NonRes") == std::string::npos and quarks() != daughterQuarks(); }
 bool Particle::isStateGood() const { return m_isStateGood; }
 bool Particle::isStable() const { return m_daughters.size() == 0; }
 
-- 
2.43.0


From 3a438b66fd5382d8ff2b06a49543ccbf039e7134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:03 +0000
Subject: [PATCH 26/63] fix: polarisation states outside the spin of the
 particle are rejected for both signs

---
 src/Particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 703087d..3104a30 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -837,11 +837,11 @@ EventType Particle::eventType() const
 
 void Particle::setPolarisationState( const int& state )
 {
-  if( m_props->isFermion() && (state > m_props->twoSpin() || state == 0 ) ){
+  if( m_props->isFermion() && ( std::abs(state) > m_props->twoSpin() || state % 2 == 0 ) ){
     WARNING("Invalid polarisation state for fermion ["<<name() << "] = " << state );
     m_polState = 999; 
   }
-  else if ( m_props->isBoson() && state > m_props->twoSpin() / 2 ){
+  else if ( m_props->isBoson() && std::abs(state) > m_props->twoSpin() / 2 ){
     WARNING("Invalid polarisation state for boson ["<< name() <<"] = " << state );
     m_polState = 999 ;
   }
-- 
2.43.0


From e28c453d61f451a88515f3c084bdc4f031becbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:15 +0000
Subject: [PATCH 27/63] fix: helicity states of vectors moving against the
 z-axis have the stated helicity

---
 src/Particle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 3104a30..f754224 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -561,8 +561,9 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       Expression invP   = make_cse(Ternary( pP            > 1e-6, 1./pP,0));
       Expression pZoverP = make_cse(Ternary( pP > 1e-6, pZ/pP, 1) );
       Expression f = (pP-pZ)*invPT2;
-      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverP - 1i*z *pX*f*invP, z*invP           , 0.  }); 
-      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverP - 1i*zb*pX*f*invP,-zb*invP          , 0.  });
+      Expression yAxis  = make_cse(Ternary( pX*pX + pY*pY > 1e-6, pZoverP, 1)); // y-axis is unchanged if the momentum is (anti)parallel to z
+      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*yAxis - 1i*z *pX*f*invP, z*invP           , 0.  }); 
+      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*yAxis - 1i*zb*pX*f*invP,-zb*invP          , 0.  });
       if(polState ==  0) return     Tensor({pX*pE*invP/m    , pY*pE*invP/m       , pZoverP*pE/m, pP/m}); 
     }
     if( m_spinBasis == spinBasis::Dirac ){
-- 
2.43.0


From 870f6ec3dec75e8c48e3483723bd5ecdc596bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:15 +0000
Subject: [PATCH 28/63] fix: helicity spinors of fermions moving against the
 z-axis have the stated helicity

---
 src/Particle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index f754224..a4691be 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -580,8 +580,9 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       std::array<Tensor,2> xi;
       Expression aligned = make_cse( fcn::abs(pP + pZ) < 1e-6 ) ;
       Expression n       = 1/fcn::sqrt( 2 * pP*(pP+pZ) );
-      xi[0] = Tensor( { Ternary( aligned, 1, n * ( pP + pZ ) )      , Ternary( aligned, 0, n * ( pX + 1i * pY) ) } );
-      xi[1] = Tensor( { Ternary( aligned, 0, n * ( -pX + 1i * pY )) , Ternary( aligned, 1, n * ( pP + pZ ) ) } );
+      Expression flip    = make_cse( Ternary( pP > 1e-6, 1, 0 ) ); // antiparallel to z, rather than at rest
+      xi[0] = Tensor( { Ternary( aligned, 1 - flip, n * ( pP + pZ ) ) , Ternary( aligned, flip    , n * ( pX + 1i * pY) ) } );
+      xi[1] = Tensor( { Ternary( aligned, -flip, n * ( -pX + 1i * pY )) , Ternary( aligned, 1 - flip, n * ( pP + pZ ) ) } );
       Expression N = make_cse( fcn::sqrt((pE+m)/(2*m) ));
       Expression k = pP * polState / ( pE + m );
       int ind = polState == +1 ? 0 : 1;
-- 
2.43.0


From fafc2d25c5bbf91d2c83e9e2c89bb811b9844bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 29/63] fix: MinuitParameter without a flag is initialised from
 its arguments

---
 src/MinuitParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameter.cpp b/src/MinuitParameter.cpp
index 0ef9140..c00ff87 100644
--- a/src/MinuitParameter.cpp
+++ b/src/MinuitParameter.cpp
@@ -22,7 +22,7 @@ MinuitParameter::MinuitParameter( const std::string& name, const Flag& fix, cons
 }
 
 MinuitParameter::MinuitParameter( const std::string& name, const double& mean, const double& step, const double& mi, const double& ma )
-  : MinuitParameter(name, Flag::Free, m_meanInit, m_stepInit, m_minInit, m_maxInit ) 
+  : MinuitParameter(name, Flag::Free, mean, step, mi, ma ) 
 {
   DEBUG( "Building parameter : " << name );
   resetToInit();
-- 
2.43.0


From 8528c9ae2a41e9556cbd776d9b0999bf2cc413ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 30/63] fix: a parameter whose name is already defined is not
 added to the set

---
 src/MinuitParameterSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 549974f..261f6ec 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -31,11 +31,11 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 {
   bool success = true;
   if ( nullptr == parPtr ) return false;
-  m_parameters.push_back( parPtr );
   if ( m_keyAccess.find( parPtr->name() ) != m_keyAccess.end() ) {
     WARNING( "Parameter with name " << parPtr->name() << " already exists!, skipping" );
     return false; 
   }
+  m_parameters.push_back( parPtr );
   DEBUG( "Adding: " << parPtr->name() ); 
   m_keyAccess[parPtr->name()] = parPtr;
   return success;
-- 
2.43.0


From f04973881c940edfc515e68875bc59de29eef4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 31/63] fix: an unregistered parameter is no longer found by
 name

---
 src/MinuitParameterSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 261f6ec..7ed75f4 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -57,6 +57,7 @@ bool MinuitParameterSet::unregister( MinuitParameter* parPtr )
     return false;
   }
   m_parameters.erase( remove( m_parameters.begin(), m_parameters.end(), parPtr ), m_parameters.end() );
+  m_keyAccess.erase( parPtr->name() );
   return true;
 }
 
-- 
2.43.0


From 03f8a5cef8e7ad506e0b6b74e0934334047c45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 32/63] fix: operator[] of a MinuitParameterSet returns nullptr
 for unknown names

---
 src/MinuitParameterSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 7ed75f4..735552b 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -83,6 +83,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key )
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -92,6 +93,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key ) const
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
-- 
2.43.0


From a704d5035e34d691f8e22885ea156f80426f7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:25 +0000
Subject: [PATCH 33/63] fix: evaluating an unknown parameter is an error rather
 than a null dereference

---
 src/MinuitParameterSet.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 735552b..5cbe375 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -259,10 +259,9 @@ MinuitParameter* MinuitParameterSet::find( const std::string& key ) const
 
 double MinuitParameterSet::operator()( const std::string& name )
 {
-  if ( m_keyAccess.find(name) == m_keyAccess.end() ) {
-    ERROR( "Cannot find parameter " << name );
-  }
-  return m_keyAccess[name]->mean();
+  auto param = find( name );
+  if ( param == nullptr ) FATAL( "Cannot find parameter " << name );
+  return param->mean();
 }
 
 MinuitParameterSet::~MinuitParameterSet()
-- 
2.43.0


From ca92b1c944318f9fe340cded79f71b8255415a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:45 +0000
Subject: [PATCH 34/63] fix: compile time constants linked by expressions keep
 their full precision

---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 49edf95..bd9d0e0 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -246,7 +246,7 @@ std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-    return std::to_string( m_parameter->mean() ); 
+    return Constant( m_parameter->mean() ).to_string( resolver ); 
   return resolver->resolvedParameter(this);
 
 }
-- 
2.43.0


From 50e276cd8d9e50507824cd40e974860a88466df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:45 +0000
Subject: [PATCH 35/63] fix: linked compile time constants are resolved when
 they are not compiled in

---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index bd9d0e0..e257b7e 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -259,7 +259,7 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
   if( as_expression != nullptr ) return as_expression->expression().resolve(resolver);
-  if( m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
+  if( ! resolver.enableCompileConstants() || m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
 }
 
 complex_t MinuitParameterLink::operator()() const 
-- 
2.43.0


From 8564ec2f78908df0604c0916988be5443ea94672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:45 +0000
Subject: [PATCH 36/63] fix: links to complex expressions evaluate to the
 complex value that is compiled

---
 src/ExpressionParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index e257b7e..04a7932 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -265,6 +265,8 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 complex_t MinuitParameterLink::operator()() const 
 { 
   if( m_parameter == nullptr ) ERROR("Parameter does not have end-point");
+  auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
+  if( as_expression != nullptr ) return as_expression->getVal();
   return m_parameter->mean(); 
 }
 
-- 
2.43.0


From 1c38449e231a2307c253b5b6989e3aa1273b45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 37/63] fix: linked expressions are bracketed in the emitted
 source

---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 04a7932..211271f 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -242,7 +242,7 @@ MinuitParameterLink::MinuitParameterLink( MinuitParameter* param ) : m_parameter
 std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
-  if( as_expression != nullptr ) return as_expression->expression().to_string(resolver);
+  if( as_expression != nullptr ) return "(" + as_expression->expression().to_string(resolver) + ")";
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-- 
2.43.0


From f9f832745cb63cef98461e112c9df83fe0de8563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:08 +0000
Subject: [PATCH 38/63] fix: expanding a decay updates its descriptor

---
 src/Particle.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index a4691be..ed46183 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -922,9 +922,14 @@ bool Particle::expand( const Particle& particle )
 {
   for( auto& d : m_daughters ) 
   {
-    if( d->name() == particle.name() && d->isStable() ){ d = std::make_shared<Particle>(particle); return true; }
-    bool worked = d->expand( particle);
-    if( worked ) return true; 
+    bool worked = d->name() == particle.name() && d->isStable();
+    if( worked ) d = std::make_shared<Particle>(particle); 
+    else worked = d->expand( particle);
+    if( worked ){
+      d->setParent( this );
+      m_uniqueString = makeUniqueString();
+      return true; 
+    }
   }
   return false ;
 }
-- 
2.43.0


From 9d10c0e84fff9ea025a04b01bbafcd096ca407a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:08 +0000
Subject: [PATCH 39/63] fix: each unexpanded state of an amplitude is expanded
 with a rule and coupling of its own

---
 src/AmplitudeRules.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index ca0bec6..bc1a7d4 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -214,14 +214,14 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Co
     for(const auto& [particle, coupling] : rt )
     {
       if(!canExpand(particle)){ newTmpParticles.emplace_back(particle, coupling);  continue; }
-      std::string nameToExpand = particle.uniqueString();
       auto fs                  = particle.getFinalStateParticles();
       auto it                  = *std::find_if( fs.begin(), fs.end(), canDecay );
       auto expandedRules       = rulesForDecay( it->name() );
       for ( auto& subTree : expandedRules )
       {
-        auto expanded_amplitude = replaceAll( nameToExpand, it->name(), subTree.name() );
-        newTmpParticles.emplace_back( Particle( expanded_amplitude), TotalCoupling( coupling, subTree) );
+        auto expanded_amplitude = particle.clone();
+        expanded_amplitude.expand( subTree.particle() );
+        newTmpParticles.emplace_back( Particle( expanded_amplitude.uniqueString() ), TotalCoupling( coupling, subTree) );
       }
     }
     rt = newTmpParticles;
-- 
2.43.0


From 7f8205c39196378a8a4cc380e787a6a4b0aa2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:08 +0000
Subject: [PATCH 40/63] fix: TotalCoupling::isFixed handles couplings that are
 expressions

---
 src/AmplitudeRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index bc1a7d4..a5493b2 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -171,7 +171,7 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::getMatchingRules
 
 bool TotalCoupling::isFixed() const
 {
-  return std::all_of(begin(), end(), [](auto& c){ return c.x()->isFixed() && c.y()->isFixed() ; } );
+  return std::all_of(begin(), end(), [](auto& c){ return c.x() != nullptr && c.x()->isFixed() && c.y()->isFixed() ; } );
 }
 
 bool TotalCoupling::contains( const std::string& label ) const 
-- 
2.43.0


From 6d60cb92af9d9aeb21283ee6269f08cedf418740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:08 +0000
Subject: [PATCH 41/63] fix: AddCPConjugate ignores parameters that do not
 belong to a particle

---
 src/AddCPConjugate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index c6ec1b3..91747c9 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -65,6 +65,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
       if( props != 0  ) new_name = props->anti().name() + "_" + tokens[1]; 
     }
+    if( new_name == "" ) continue; 
     tmp.push_back( new MinuitExpression(new_name, sgn * MinuitParameterLink(param) )) ;  
   }
   for( auto& p : tmp ){
-- 
2.43.0


From 64412ebbe7433e737b2d95fa7c48ea8127377caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:29 +0000
Subject: [PATCH 42/63] fix: AddCPConjugate keeps the prefix of couplings and
 skips complex parameters that are not couplings

---
 src/AddCPConjugate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index 91747c9..efe3af7 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -49,6 +49,9 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
     std::string new_name = ""; 
     int sgn=1;
     if ( reOrIm == "Re" || reOrIm == "Im" ){
+      std::string prefix = "";
+      if( tokens.size() == 3 ){ prefix = tokens[0] + "_"; pname = tokens[1]; }
+      if( ! Particle::isValidDecayDescriptor(pname) ) continue; 
       auto test_particle = Particle(pname);
       //DEBUG( test_particle.name() << "->" << test_particle ); 
       if( std::count( forbidden.begin(), forbidden.end(), test_particle.name() ) != 0 ){
@@ -59,7 +62,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       if( ! test.props()->hasDistinctAnti() ) continue; 
       if( cartOrPolar == "polar" )     sgn = reOrIm == "Re" ? test.CP() : 1; 
       if( cartOrPolar == "cartesian" ) sgn = test.CP();
-      new_name = test.uniqueString() +"_"+reOrIm;
+      new_name = prefix + test.uniqueString() +"_"+reOrIm;
     }
     else if( tokens.size() == 2 ) {
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
-- 
2.43.0


From 25e45477f1cb3e02490feda2609b8a5564ab667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:29 +0000
Subject: [PATCH 43/63] fix: replaceAll does not replace inside the text it has
 inserted

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 20d5d9b..ef99358 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -117,7 +117,7 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
     pos = output.find( toReplace, start_pos );
     if ( pos != std::string::npos ) {
       output.replace( pos, toReplace.length(), replaceWith );
-      start_pos = pos + toReplace.length();
+      start_pos = pos + replaceWith.length();
     }
   } while ( pos != std::string::npos );
   return output;
-- 
2.43.0


From 3ec7b26827112fac799f4988d1d30aff73252f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 44/63] fix: replaceAll terminates when asked to replace the
 empty string

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index ef99358..ebc7d95 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -108,7 +108,7 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
 {
   size_t pos         = 0;
   std::string output = input;
-  if ( toReplace == replaceWith ) {
+  if ( toReplace == "" || toReplace == replaceWith ) {
     ERROR( "This will lead to infinite loop and not do anything!" );
     return input;
   }
-- 
2.43.0


From 4f8bed6c63a3a9d68e4efb7fc9771f40358cddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 45/63] fix: expandGlobals keeps the character that follows
 ${VARIABLE}

---
 src/Utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index ebc7d95..2501de7 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -343,7 +343,6 @@ std::string AmpGen::expandGlobals( std::string path )
     if ( path[pos + 1] == '{' ) {
       end_pos       = path.find( "}", pos );
       variable_name = path.substr( pos + 2, end_pos - pos - 2 );
-      end_pos       = end_pos + 1;
     } else {
       end_pos       = find_next_of( path, {".", "/"}, pos );
       variable_name = path.substr( pos + 1, end_pos - pos - 1 );
-- 
2.43.0


From 89295d87cb2c9b3a7ec8d645348be30dc214514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 46/63] fix: wildcards match any position of the text that
 follows them

---
 src/Utilities.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 2501de7..f625b98 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -230,10 +230,10 @@ bool AmpGen::stringMatchesWildcard( const std::string& input, const std::string&
     const std::string pattern2 = wildcard_string.substr( pos + 1 );
     bool match1 = stringMatchesWildcard( input, pattern1, wildcard_character );
     if ( !match1 ) return false;
-    auto pos2             = pattern2.find( wildcard_character );
-    auto posInInputString = input.find( pattern2.substr( 0, pos2 ) );
-    if ( posInInputString == std::string::npos ) return false;
-    return stringMatchesWildcard( input.substr( posInInputString ), pattern2, wildcard_character );
+    for ( size_t begin = pos; begin <= input.size(); ++begin ) {
+      if ( stringMatchesWildcard( input.substr( begin ), pattern2, wildcard_character ) ) return true;
+    }
+    return false;
   }
   return false;
 }
-- 
2.43.0


From 7e8727a99675f9383f6f4cea01a228941183c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 47/63] fix: getItems rejects braces that are closed before
 they are opened

---
 src/Utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index f625b98..cb96365 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -160,6 +160,10 @@ std::vector<std::string> AmpGen::getItems( const std::string& tree,
       break;
     }
   }
+  if ( matched_braces.size() * 2 != braces.size() ) {
+    ERROR( "Unmatched braces in expression: " << tree );
+    return std::vector<std::string>();
+  }
   auto commas = findAll( tree, seperator ); //// commas delimit separate decays;
   std::vector<std::string> daughterTrees;
   size_t begin_position = matched_braces.begin()->first + 1;
-- 
2.43.0


From e350a86ced312cdb323c3b2f01f82608fa055e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 48/63] fix: parallel_sort terminates for any grain size

---
 AmpGen/Utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index e34f5c9..55d3ff8 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -136,7 +136,7 @@ namespace AmpGen {
           const size_t& grainsize)
       {
         const size_t len   = end - begin; 
-        if(len < grainsize) std::sort(begin, end, comp);
+        if(len < 2 || len < grainsize) std::sort(begin, end, comp);
         else
         {
           const auto  middle = begin + len/2;
-- 
2.43.0


From 85a2540392e3a5431270bc6e3ad2d5df4b84ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 49/63] fix: enum parsing rejects empty words and numbers that
 are not an enumerator

---
 AmpGen/enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/enum.h b/AmpGen/enum.h
index b6529ee..a6c1613 100644
--- a/AmpGen/enum.h
+++ b/AmpGen/enum.h
@@ -32,7 +32,7 @@ namespace AmpGen {
     {
       char* p;                                                 
       auto number = strtoul( word.c_str(), &p, 10 );           
-      if( *p == 0 ) return T(number);
+      if( p != word.c_str() && *p == 0 ) return number < (unsigned long)( T::Invalid ) ? T(number) : T::Invalid;
       unsigned counter = 0;
       unsigned begin = 0;
       unsigned end   = 0;
-- 
2.43.0


From e548fbd9d171628a5ecb7b0cf653bb4e9f90faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 50/63] fix: converting an unrecognised unit raises an error

---
 src/Units.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Units.cpp b/src/Units.cpp
index a252032..efac8c1 100644
--- a/src/Units.cpp
+++ b/src/Units.cpp
@@ -1,6 +1,7 @@
 
 #include "AmpGen/Units.h"
 #include "AmpGen/Utilities.h"
+#include <stdexcept>
 
 namespace AmpGen {
   complete_enum(Units, TeV, GeV, MeV, KeV, eV, ms, us, ns, ps, fs)
@@ -9,5 +10,6 @@ namespace AmpGen {
 double AmpGen::to_double(const AmpGen::Units& unit)
 {
   static const double value_table[10] = {TeV, GeV, MeV, KeV, eV, ms, us, ns, ps, fs};
+  if( unit == AmpGen::Units::Invalid ) throw std::runtime_error("Unrecognised unit");
   return value_table[unsigned(unit)];  
 } 
-- 
2.43.0


From 0ae4e61b69d147edd3230217186bc7cee8a42376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 51/63] fix: keep the last word of an option line when a
 comment follows it directly

---
 src/OptionsParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 2bdafe7..168521d 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -137,7 +137,10 @@ std::vector<std::string> OptionsParser::makeParsedStrings( const std::string& li
   std::vector<std::string> fillThisList;
 
   for ( std::string::const_iterator it = s.begin(); it != s.end(); ++it ) {
-    if ( !insideQuotes && *it == '#' ) break; /// indicates a comment, except in speech marks ///
+    if ( !insideQuotes && *it == '#' ) { /// indicates a comment, except in speech marks ///
+      if ( !prevBlank ) fillThisList.emplace_back( prev, it );
+      break;
+    }
     if ( ( ( !insideQuotes ) && std::isblank( *it ) ) || *it == '"' || ignore ) {
       if ( !prevBlank ) {
         std::string tmp_s( prev, it );
-- 
2.43.0


From e3dc3cbd9341d6eb82ea8f19cf1e48f662e61a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 52/63] fix: an overwritten option is listed once

---
 src/OptionsParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 168521d..1a31577 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -119,8 +119,8 @@ void OptionsParser::addArg( const std::vector<std::string>& tokens )
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
   else { 
+    if( m_parsedLines.count(key) == 0 ) m_orderedKeys.push_back(key);
     m_parsedLines[key] = tokens; 
-    m_orderedKeys.push_back(key); 
   }
 }
 
-- 
2.43.0


From 36fb73559225f7b5a2d705bb0dd409a980648ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 53/63] fix: an option text without words is ignored

---
 src/OptionsParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 1a31577..a902b32 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -115,6 +115,7 @@ void OptionsParser::addArg( const std::string& arg )
 
 void OptionsParser::addArg( const std::vector<std::string>& tokens )
 {
+  if( tokens.empty() ) return; 
   const auto& key = tokens[0];
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
-- 
2.43.0


From 97deda956ae1154e35fcfde61b13123cbbdcae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:59 +0000
Subject: [PATCH 54/63] fix: sign of zero is positive, so that the vector
 square root of a negative number is on the usual branch

---
 AmpGen/simd/avx2d_types.h | 2 +-
 AmpGen/simd/avx2f_types.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/simd/avx2d_types.h b/AmpGen/simd/avx2d_types.h
index 52560c7..e9a9ce8 100644
--- a/AmpGen/simd/avx2d_types.h
+++ b/AmpGen/simd/avx2d_types.h
@@ -118,7 +118,7 @@ namespace AmpGen {
 
     inline real_v select(const real_v& mask, const real_v& a, const real_v& b ) { return _mm256_blendv_pd( b, a, mask ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; }
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v >= 0., +1., -1. ); }
     inline real_v conj( const real_v& v ) { return v; }
     
     inline real_v atan2( const real_v& y, const real_v& x ){
diff --git a/AmpGen/simd/avx2f_types.h b/AmpGen/simd/avx2f_types.h
index 7202250..c949b76 100644
--- a/AmpGen/simd/avx2f_types.h
+++ b/AmpGen/simd/avx2f_types.h
@@ -104,7 +104,7 @@ namespace AmpGen {
     inline real_v abs   ( const real_v& v ) { return v & _mm256_castsi256_ps( _mm256_set1_epi32( 0x7FFFFFFF ) ); }
     inline real_v select(const real_v& mask, const real_v& a, const real_v& b ) { return _mm256_blendv_ps( b, a, mask ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; } 
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v >= 0., +1., -1. ); }
     inline real_v fmadd ( const real_v& a, const real_v& b, const real_v& c ) { return _mm256_fmadd_ps(a, b, c); }
     inline real_v remainder( const real_v& a, const real_v& b ){ return a - real_v(_mm256_round_ps(a/b, _MM_FROUND_TO_NEG_INF)) * b; }
     inline real_v atan2( const real_v& y, const real_v& x ){ 
-- 
2.43.0


From c63c0f2c52c216f8f2d7c821ca28ecfabe8df206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:59 +0000
Subject: [PATCH 55/63] fix: a complex number made from a real one has no
 imaginary part

---
 AmpGen/Complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 6508b8f..682e254 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -14,7 +14,7 @@ namespace AmpGen {
     // Complex( const float&   re, const float& im) : re(re), im(im) {}
     Complex( const std::complex<double>& f ) : re( f.real() ), im( f.imag() ) {}
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
-    explicit Complex( const real_t& arg ) : re(arg) {};
+    explicit Complex( const real_t& arg ) : re(arg), im(0.) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
     // explicit Complex( const double& arg ) : re(arg) {};
     inline Complex operator+=(const Complex& rhs ); 
-- 
2.43.0


From 5ee73f347fa286f29d1cea77b3c3c58948496e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:59 +0000
Subject: [PATCH 56/63] fix: KahanSum + term keeps the compensation with the
 sign that += and the value use

---
 AmpGen/KahanSum.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/AmpGen/KahanSum.h b/AmpGen/KahanSum.h
index 25b5e8b..c9dc125 100644
--- a/AmpGen/KahanSum.h
+++ b/AmpGen/KahanSum.h
@@ -34,11 +34,8 @@ namespace AmpGen {
   template <typename T> 
     KahanSum<T> operator+( const KahanSum<T>& l, const T& var )
     {
-      KahanSum<T> rt; 
-      T y = var - l.cor;
-      T t = l.sum + y;
-      rt.cor = (t-l.sum)-y; 
-      rt.sum = t;
+      KahanSum<T> rt = l; 
+      rt += var;
       return rt;
     }
 
-- 
2.43.0


From dc63c8d804a2b33065e36ed08efd09c9585f8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:23 +0000
Subject: [PATCH 57/63] fix: the integral of a function of one variable is
 returned

---
 AmpGen/NumericalIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/NumericalIntegration.h b/AmpGen/NumericalIntegration.h
index eaf1288..27e2dbc 100644
--- a/AmpGen/NumericalIntegration.h
+++ b/AmpGen/NumericalIntegration.h
@@ -93,7 +93,7 @@ namespace AmpGen {
     //   2.A. van Doren and L. de Ridder, An adaptive algorithm for numerical
     //     integration over an n-dimensional cube, J.Comput. Appl. Math. 2 (1976) 207-217.
     if constexpr( dim == 1 ){
-      if constexpr( is_functor<fcn, double(const double&)>::value ) { integrate_1d(F, xmin[0], xmax[0] ); }
+      if constexpr( is_functor<fcn, double(const double&)>::value ) { return integrate_1d(F, xmin[0], xmax[0] ); }
       else if constexpr( is_functor<fcn, double(const std::array<double, 1>& ) >::value ){
         return integrate_1d( [&F](const double& x){ return F( std::array<double,1>{x} ); }, xmin[0], xmax[0] );
       }
-- 
2.43.0


From 28afca4c886c549f95b6076134f7f7a4089135e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:43 +0000
Subject: [PATCH 58/63] fix: a thread pool that was waited for can be
 destroyed, and refuses further tasks

---
 src/ThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThreadPool.cpp b/src/ThreadPool.cpp
index b0489cf..e30a4fb 100644
--- a/src/ThreadPool.cpp
+++ b/src/ThreadPool.cpp
@@ -37,5 +37,5 @@ void ThreadPool::waitForStoppedThreads()
   }
   m_condition.notify_all();
   for(std::thread &worker: m_workers) worker.join();
-  m_stop = false;
+  m_workers.clear();
 }
-- 
2.43.0


From 5cd71cbf0d00384eb62448a4fbf285b42054bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:44 +0000
Subject: [PATCH 59/63] fix: a task run without threads makes its future ready

---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index 5b2d1ee..d205d21 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -68,7 +68,7 @@ namespace AmpGen
     using return_type = typename std::invoke_result_t<F, Args...>;
     auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
     std::future<return_type> res = task->get_future();
-    if(! m_enableThreadPool ) {  f(args...); return res; } 
+    if(! m_enableThreadPool ) {  (*task)(); return res; } 
     else
     {
       {
-- 
2.43.0


From 93d77017dd89c7fd698c42971a93c661b1e6fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:27 +0000
Subject: [PATCH 60/63] fix: products with tensors without free indices stay
 inside their coordinates

---
 src/Tensor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 56690c0..c5abab2 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -420,20 +420,20 @@ TensorProxy AmpGen::operator*( const TensorProxy& t1, const TensorProxy& t2 )
     std::vector<unsigned> t2_coords( t2_size, 0 );
     unsigned i = 0;
     unsigned j = 0;
-    do {
+    for( ; i < t1_size; ++i ) {
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.i == i ;} )){
         t1_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t1_size );
+    }
     i = 0;
     j = t1_size - contractions.size();
-    do {
+    for( ; i < t2_size; ++i ) {
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.j == i ;} )){
         t2_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t2_size );
+    }
     
     Expression elementExpression = 0;
     for( unsigned m=0; m<nElementsInSum; ++m) {
-- 
2.43.0


From a5466b001055b2e6bc4bcac2f73d623d857618a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:26 +0000
Subject: [PATCH 61/63] fix: CompiledExpression::set gives the program the name
 of the expression

---
 AmpGen/CompiledExpression.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/AmpGen/CompiledExpression.h b/AmpGen/CompiledExpression.h
index 06b2b0a..f650cdb 100644
--- a/AmpGen/CompiledExpression.h
+++ b/AmpGen/CompiledExpression.h
@@ -57,6 +57,7 @@ namespace AmpGen
         {
           m_obj = expression; 
           m_name = name; 
+          m_progName = programatic_name(name); 
           const MinuitParameterSet* mps = nullptr; 
           auto process_argument = [this, &mps]( const auto& arg ) mutable
           {
-- 
2.43.0


From e93571839bee8a260aa3cef2e9fcbb53ed291d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:26 +0000
Subject: [PATCH 62/63] fix: accept a MinuitParameterSet passed by reference to
 a CompiledExpression

---
 AmpGen/CompiledExpression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/CompiledExpression.h b/AmpGen/CompiledExpression.h
index f650cdb..d56e4d8 100644
--- a/AmpGen/CompiledExpression.h
+++ b/AmpGen/CompiledExpression.h
@@ -71,7 +71,7 @@ namespace AmpGen
                                std::is_convertible<decltype(arg), MinuitParameterSet*>::value ){
               mps = arg;
             }
-            else if constexpr( std::is_convertible<decltype(arg), MinuitParameterSet>::value ) mps = &arg;
+            else if constexpr( std::is_convertible<decltype(arg), const MinuitParameterSet&>::value ) mps = &arg;
             
             else if constexpr( std::is_convertible<decltype(arg), disableBatch>::value ) {
               DEBUG("Disabling bulk evaluation: did you do this on purpose?");
-- 
2.43.0


From 91cb5922ae825a24d0eefbee13eb0cd7defc9304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 63/63] fix: a decay descriptor naming an unknown particle is
 marked as not usable

---
 src/Particle.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index ed46183..e8310aa 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -96,6 +96,12 @@ Particle::Particle( const std::string& decayString, const std::vector<std::strin
     (*m_daughters.rbegin())->setParent(this);
   }
   m_props = ParticlePropertiesList::get( m_name );
+  m_isStateGood = m_props != nullptr && std::all_of(m_daughters.begin(), m_daughters.end(), [](const auto& d){return d->isStateGood();} );
+  if ( !m_isStateGood ) {
+    ERROR( "Amplitude " << decayString << " not configured correctly" );
+    m_uniqueString = decayString;
+    return;
+  }
   pdgLookup();
   auto fs = getFinalStateParticles( false );
   DEBUG( "Building particle from decay string = " << decayString << " name = " << m_name << " "<< m_props->name() );
-- 
2.43.0

